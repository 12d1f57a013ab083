------------------------------ MODULE Judge_C16 ------------------------------
(* Recorded runs of the v2 finalizer.                                         *)
EXTENDS FinCheck
Note(r) == IF r.new # "ok" THEN PrintT("NOTE new-" \o r.new) ELSE IF r.res = "ok" THEN PrintT("NOTE ok") ELSE PrintT("NOTE err")
Next == Step(LAMBDA r : IF Note(r) THEN CheckFin(r) ELSE "")
==============================================================================
