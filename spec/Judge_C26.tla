------------------------------ MODULE Judge_C26 ------------------------------
(* Recorded sessions: every step is the step the specification prescribes, no  *)
(* signature is lost, and what comes out in the end is valid.                  *)
EXTENDS FinCheck, SignCheck, CombineCheck
SigsIn(p) == UNION {{<<k, e[1], e[2]>> : e \in Only(p.i[k], {"psig", "tapkeysig", "tapscriptsig"})} : k \in 1..Len(p.i)}
Panics(s) == IF s.res = "panic" THEN s.op \o " panicked: " \o s.panic ELSE ""
CheckOp(r, s) ==
  LET x == Abs(s.x) IN
  CASE s.op = "sign" -> CheckSign(s)
    [] s.op = "comb" -> LET m == CheckStep(2, s) IN
         IF m # "" THEN m ELSE IF s.res # "ok" THEN "copies of one PSBT cannot be combined"
         ELSE Req(SigsIn(Abs(s.q)) = SigsIn(x) \cup SigsIn(Abs(s.y)), "a signature was lost or invented in combining")
    [] s.op = "wire" -> IF s.res # "ok" THEN "a PSBT does not survive serialization" ELSE Req(s.q = s.x, "serialization changes the PSBT")
    [] s.op = "fin" -> CheckFin(s)
    [] s.op = "ext" ->
         IF ~ \A k \in 1..Len(x.i) : Has(x.i[k], "fsig") /\ Has(x.i[k], "fwit") THEN Req(s.res = "err", "a transaction is extracted from a PSBT that is not final")
         ELSE IF s.res # "ok" THEN "no transaction is extracted from a final PSBT"
         ELSE IF s.tx # Tx(Abs(r.p)) THEN "the extracted transaction is not the one all parties agreed on"
         ELSE Req(\A k \in 1..Len(x.i) : s.scr[k][1] = Val(x.i[k], "fsig") /\ s.scr[k][2] = Val(x.i[k], "fwit"), "the extracted transaction has other scripts than the PSBT")
    [] OTHER -> ""
CheckOne(r, s) == LET m == Panics(s) IN IF m # "" THEN m ELSE LET n == CheckOp(r, s) IN IF n # "" THEN n ELSE Req(s.id = r.id, "the identifier changed")
(* a party whose PSBT is final is done: finalized inputs can no longer be signed or combined *)
Done(s) == \E k \in 1..Len(Abs(s.x).i) : Has(Abs(s.x).i[k], "fsig") \/ Has(Abs(s.x).i[k], "fwit")
(* where the model has foreseen how the session ends *)
Foreseen(r) == r.exp = "" \/ \A k \in 1..Len(r.steps) : r.steps[k].op = "fin" => r.steps[k].res = r.exp
Check(r) == IF ~Foreseen(r) THEN "finalizing does not succeed exactly when enough signatures are gathered" ELSE First([k \in 1..Len(r.steps) |-> LET m == CheckOne(r, r.steps[k]) IN IF m = "" THEN "" ELSE r.steps[k].op \o ": " \o m])
Note(r) == \A k \in 1..Len(r.steps) : r.steps[k].op \in {"fin", "ext"} => PrintT("NOTE " \o r.steps[k].op \o " " \o r.steps[k].res)
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
