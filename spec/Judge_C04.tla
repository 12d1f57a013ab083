------------------------------ MODULE Judge_C04 ------------------------------
EXTENDS WireCheck
Check(r) == IF r.k = "round" THEN CheckRound(r) ELSE CheckBytes(r, {0})
Next == Step(Check)
==============================================================================
