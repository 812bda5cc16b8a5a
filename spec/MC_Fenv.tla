------------------------------ MODULE MC_Fenv ------------------------------
EXTENDS Fenv
=============================================================================
