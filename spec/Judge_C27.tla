------------------------------ MODULE Judge_C27 ------------------------------
(* Recorded v0 sessions: every step is the step the specification prescribes,  *)
(* nothing that was signed or finalized is lost, and what comes out is valid.  *)
EXTENDS Sign0Check, Fin0Check, CombineCheck
SIGS == {"psig", "tapkeysig", "tapscriptsig"}
SigsIn(p) == UNION {{<<k, e[1], e[2]>> : e \in Only(p.i[k], SIGS)} : k \in 1..Len(p.i)}
Finals(p) == {k \in 1..Len(p.i) : Final_(p.i[k])}
Raw(x, e) == IF e.st = "panic" THEN "extract_tx_unchecked_fee_rate panicked: " \o e.panic
  ELSE Req(TxHex(e.tx) = Val(x.g, "unsignedtx") /\ \A k \in 1..Len(x.i) : e.sigs[k][1] = ValOr(x.i[k], "fsig", "") /\ e.sigs[k][2] = ValOr(x.i[k], "fwit", "00"),
           "the transaction extracted unchecked is not the one agreed on with the final scripts")
Rec(r, s) == [op |-> s.how, k |-> s.k, tx |-> r.tx, spends |-> r.spends]
CheckOp(r, s, TAB) ==
  LET x == Abs(s.x) IN
  CASE s.op = "sign" -> CheckSign(s, r.tx, TAB)
    [] s.op = "comb" -> LET m == CheckStep(0, s) IN
         IF m # "" THEN m ELSE IF s.res # "ok" THEN "copies of one PSBT cannot be combined"
         ELSE First(<< Req(SigsIn(Abs(s.q)) = SigsIn(x) \cup SigsIn(Abs(s.y)), "a signature was lost or invented in combining"),
                       Req(Finals(Abs(s.q)) = Finals(x) \cup Finals(Abs(s.y)), "an input that was final for one party is not final after combining, or the other way round") >>)
    [] s.op = "wire" -> IF s.res # "ok" THEN "a PSBT does not survive serialization" ELSE Req(s.q = s.x, "serialization changes the PSBT")
    [] s.op = "fin" -> LET m == CheckFinStep(Rec(r, s), x, TAB, s) IN IF m # "" THEN m ELSE Req(Finals(x) \subseteq Finals(Abs(s.q)), "an input that was final is not final any more")
    [] s.op = "ext" -> LET m == CheckExt([op |-> "fin", tx |-> r.tx, spends |-> r.spends], x, TAB, s, x) IN IF m # "" THEN m ELSE Raw(x, s.raw)
    [] OTHER -> "unknown operation"
CheckOne(r, s, TAB) ==
  IF s.res = "panic" THEN s.op \o " panicked: " \o s.panic
  ELSE IF Val(Abs(s.x).g, "unsignedtx") # TxHex(r.tx) THEN "the unsigned transaction changed"
  ELSE CheckOp(r, s, TAB)
(* where the model has foreseen which inputs become final, and that all of them give a transaction *)
Last(r) == r.steps[Len(r.steps)]
Foreseen(r) == r.fins = <<>> \/ LET x == Abs(Last(r).x) IN
  /\ Len(r.fins) = Len(x.i) /\ \A k \in 1..Len(x.i) : r.fins[k] = Final_(x.i[k])
  /\ (Last(r).ext.st = "ok") = \A k \in 1..Len(x.i) : r.fins[k]
Check(r) ==
  IF Last(r).res # "panic" /\ ~Foreseen(r) THEN "inputs do not become final exactly when enough signatures are gathered, or do not extract exactly when all are final"
  ELSE LET TAB == TabOf(r.tab) IN First([k \in 1..Len(r.steps) |-> LET m == CheckOne(r, r.steps[k], TAB) IN IF m = "" THEN "" ELSE r.steps[k].op \o ": " \o m])
Note(r) == \A k \in 1..Len(r.steps) : r.steps[k].op \in {"fin", "ext"} => PrintT("NOTE " \o r.steps[k].op \o " " \o (IF r.steps[k].op = "ext" THEN r.steps[k].ext.st ELSE r.steps[k].res))
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
