------------------------------ MODULE Judge_C12 ------------------------------
EXTENDS CombineCheck
Check(r) == CheckRec(r)
Next == Step(Check)
==============================================================================
