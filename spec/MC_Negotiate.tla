------------------------------- MODULE MC_Negotiate -------------------------------
EXTENDS Negotiate
=============================================================================
