----------------------------- MODULE MC_Callee -----------------------------
EXTENDS Callee
=============================================================================
