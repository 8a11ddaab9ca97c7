------------------------------- MODULE MC_Hub -------------------------------
EXTENDS Hub
=============================================================================
