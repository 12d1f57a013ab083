------------------------------ MODULE Judge_C10 ------------------------------
EXTENDS CombineCheck
Check(r) == CheckRec(r)
Next == Step(Check)
==============================================================================
