------------------------------- MODULE MC_Values -------------------------------
EXTENDS Values
=============================================================================
