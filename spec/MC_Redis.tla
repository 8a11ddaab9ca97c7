------------------------------- MODULE MC_Redis -------------------------------
EXTENDS Redis
=============================================================================
