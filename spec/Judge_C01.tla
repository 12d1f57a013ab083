------------------------------ MODULE Judge_C01 ------------------------------
EXTENDS WireCheck
Check(r) == CheckRound(r)
Next == Step(Check)
==============================================================================
