------------------------------- MODULE MC_Wire -------------------------------
EXTENDS WireModel
=============================================================================
