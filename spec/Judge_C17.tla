------------------------------ MODULE Judge_C17 ------------------------------
(* Recorded v2 extractions.                                                   *)
EXTENDS FeeCheck
Finalized(p) == \A k \in 1..Len(p.i) : Has(p.i[k], "fsig") /\ Has(p.i[k], "fwit")
CheckTx(p, o) ==
  IF o.tx # Tx(p) THEN "the extracted transaction is not the PSBT's transaction"
  ELSE Req(\A k \in 1..Len(p.i) : o.sigs[k][1] = Val(p.i[k], "fsig") /\ o.sigs[k][2] = Val(p.i[k], "fwit"), "an input of the extracted transaction has other scripts")
CheckLimited(p, TAB, o) ==
  LET t == Tx(p) fs == FundsOf(p, VoutsOf(t), TAB) E == FeeErrs(fs, OutAmts(t)) IN
  IF E # {} THEN Req(o.res \in E, "a fee error must be reported, not " \o o.res)
  ELSE
  LET fee == FeeOf(fs, OutAmts(t)) w == Weight(t, FinalSigs(p.i))
      max == IF o.op = "with" THEN Nat8(o.max) ELSE DEFRATE
      H == TooHigh(fee, w, max)
  IN IF o.res = "ok" THEN (IF FALSE \in H THEN CheckTx(p, o) ELSE "extracted although the fee rate exceeds the limit")
     ELSE IF o.res # "high" THEN "error " \o o.res \o " does not apply"
     ELSE IF TRUE \notin H THEN "refused although the fee rate does not exceed the limit"
     ELSE Req(Nat8(o.rate) \in Rates(fee, w) /\ Nat8(o.limit) = max, "the error reports another fee rate or limit")
CheckOp(p, TAB, o) ==
  IF o.res = "panic" THEN "extracting panicked: " \o o.panic
  ELSE IF o.op = "unchecked" THEN IF o.res # "ok" THEN "unlimited extraction fails" ELSE CheckTx(p, o)
  ELSE CheckLimited(p, TAB, o)
Check(r) ==
  LET p == Abs(r.p) TAB == TabOf(r.tab) may == Finalized(p) /\ LockOk(p) IN
  IF r.new = "panic" THEN "the extractor panicked: " \o r.panic
  ELSE IF r.fin # Finalized(p) THEN "is_finalized is wrong"
  ELSE IF (r.new = "ok") # may THEN (IF may THEN "extractor refused" ELSE "extractor created although the PSBT is not finalized or has no lock time")
  ELSE IF r.new = "err" THEN Req(IF Finalized(p) THEN r.why = "lock" ELSE IF LockOk(p) THEN r.why = "unfinalized" ELSE TRUE, "the extractor gives another reason")
  ELSE LET m == First([k \in 1..Len(r.ops) |-> CheckOp(p, TAB, r.ops[k])]) IN
       IF m # "" THEN m ELSE Req(r.id = r.oid /\ r.idhex = IdHex(p), "the extractor has another identifier")
Note(r) == PrintT("NOTE new-" \o r.new) /\ (r.new # "ok" \/ \A k \in 1..Len(r.ops) : PrintT("NOTE " \o r.ops[k].op \o "-" \o r.ops[k].res))
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
