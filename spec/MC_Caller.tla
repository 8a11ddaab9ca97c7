------------------------------ MODULE MC_Caller ------------------------------
EXTENDS Caller
=============================================================================
