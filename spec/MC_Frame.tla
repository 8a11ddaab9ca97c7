------------------------------- MODULE MC_Frame -------------------------------
EXTENDS Frame
=============================================================================
