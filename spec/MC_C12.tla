------------------------------- MODULE MC_C12 -------------------------------
EXTENDS CombineModel
=============================================================================
