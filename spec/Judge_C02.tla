------------------------------ MODULE Judge_C02 ------------------------------
EXTENDS WireCheck
Check(r) == CheckBytes(r, {2})
Next == Step(Check)
==============================================================================
