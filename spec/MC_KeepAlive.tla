----------------------------- MODULE MC_KeepAlive -----------------------------
EXTENDS KeepAlive
=============================================================================
