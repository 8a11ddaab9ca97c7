------------------------------- MODULE MC_Transport -------------------------------
EXTENDS Transport
=============================================================================
