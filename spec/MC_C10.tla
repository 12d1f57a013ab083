------------------------------- MODULE MC_C10 -------------------------------
EXTENDS CombineModel
=============================================================================
