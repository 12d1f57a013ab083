------------------------------ MODULE Judge_C19 ------------------------------
EXTENDS WireCheck
Check(r) == CheckBytes(r, {2})
Next == Step(Check)
==============================================================================
