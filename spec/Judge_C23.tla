------------------------------ MODULE Judge_C23 ------------------------------
(* Recorded v0 extractions.                                                   *)
EXTENDS FeeCheck
CheckTx(r, p, o) ==
  LET F == FinalSigs(p.i) IN
  IF o.tx # r.tx THEN "the transaction is not the PSBT's transaction"
  ELSE Req(\A k \in 1..Len(p.i) : o.sigs[k][1] = F[k][1] /\ o.sigs[k][2] = F[k][2], "an input of the transaction has other scripts")
CheckLimited(r, p, TAB, o) ==
  LET t == r.tx fs == FundsOf(p, VoutsOf(t), TAB) E == FeeErrs(fs, OutAmts(t)) IN
  IF E # {} THEN
    IF o.res = "ok" THEN "extracted although the fee cannot be computed: " \o ToString(E)
    ELSE IF ~(CASE o.res = "missing" -> E \cap {"missing", "oob"} # {} [] o.res = "toomuch" -> E \cap {"negative", "outoverflow"} # {} [] o.res = "absurd" -> E \cap {"inoverflow", "outoverflow"} # {})
    THEN "error " \o o.res \o " does not apply"
    ELSE IF o.res = "toomuch" THEN Req(Abs(o.p) = p, "the error does not carry the PSBT") ELSE CheckTx(r, p, o)
  ELSE
  LET fee == FeeOf(fs, OutAmts(t)) w == Weight(t, FinalSigs(p.i))
      max == IF o.op = "with" THEN Nat8(o.max) ELSE DEFRATE
      H == TooHigh(fee, w, max)
  IN IF o.res = "ok" THEN (IF FALSE \in H THEN CheckTx(r, p, o) ELSE "extracted although the fee rate exceeds the limit")
     ELSE IF o.res # "absurd" THEN "error " \o o.res \o " does not apply"
     ELSE IF TRUE \notin H THEN "refused although the fee rate does not exceed the limit"
     ELSE IF Nat8(o.rate) \notin Rates(fee, w) THEN "the error reports another fee rate"
     ELSE CheckTx(r, p, o)
CheckOp(r, p, TAB, o) ==
  IF o.res = "panic" THEN "extracting panicked: " \o o.panic
  ELSE IF o.op = "unchecked" THEN CheckTx(r, p, o) ELSE CheckLimited(r, p, TAB, o)
Check(r) ==
  LET p == Abs(r.p) TAB == TabOf(r.tab) IN
  IF TxHex(r.tx) # Val(p.g, "unsignedtx") THEN "oracle and PSBT disagree on the transaction"
  ELSE First([k \in 1..Len(r.ops) |-> CheckOp(r, p, TAB, r.ops[k])])
Note(r) == \A k \in 1..Len(r.ops) : PrintT("NOTE " \o r.ops[k].op \o "-" \o r.ops[k].res)
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
