------------------------------ MODULE Judge_C15 ------------------------------
(* Recorded sessions: what the transaction is, at every step, and in the end.  *)
EXTENDS JudgeBase, Sign
SetSeq(p, k, s) == [p EXCEPT !.i[k] = Put(@, "sequence", s)]
TxOk(p) == LockOk(p)
Same(x, q) == LockOk(x) = LockOk(q) /\ (LockOk(x) => Tx(x) = Tx(q))
CheckOp(r, s, n) ==
  LET x == Abs(s.x) IN
  CASE s.op = "build" -> IF ~LockOk(x) THEN Req(s.res = "err", "a PSBT is constructed although no lock time can be determined")
                         ELSE IF s.res # "ok" THEN "the PSBT cannot be constructed"
                         ELSE LET q == Abs(s.q) IN Req(Same(x, q) /\ q.i = x.i /\ q.o = x.o, "construction changes the transaction or its parts")
    [] s.op = "seq" -> IF ~LockOk(x) \/ s.k > Len(x.i) THEN Req(s.res = "err", "a sequence number is set where there is no input or no lock time")
                       ELSE IF s.res # "ok" THEN "the sequence number cannot be set"
                       ELSE Req(Abs(s.q) = SetSeq(x, s.k, s.s), "setting a sequence number does something else")
    [] s.op = "sign" -> IF s.res = "ok" THEN Req(Same(x, Abs(s.q)), "signing changes the transaction") ELSE ""
    [] s.op = "comb" -> IF s.res = "ok" THEN Req(Same(x, Abs(s.q)), "combining changes the transaction") ELSE ""
    [] s.op = "wire" -> IF s.res = "ok" THEN Req(Same(x, Abs(s.q)), "serialization changes the transaction") ELSE ""
    [] s.op = "fin" -> IF "q" \in DOMAIN s THEN Req(Same(x, Abs(s.q)), "finalizing changes the transaction") ELSE ""
    [] s.op = "ext" -> IF s.res # "ok" THEN Req(~(LockOk(x) /\ \A k \in 1..Len(x.i) : Has(x.i[k], "fsig") /\ Has(x.i[k], "fwit")), "no transaction is extracted from a final PSBT")
                       ELSE IF s.tx # Tx(x) THEN "the extracted transaction is not the one that was signed"
                       ELSE Req(\A j \in 1..Len(s.made) : LET m == s.made[j] p == Abs(r.steps[m[1]].p) IN Digest(p, m[2], TabOf(r.tab)) \in RangeOf(m[4]),
                                "a signature that was made is not valid in the extracted transaction")
    [] OTHER -> ""
After(s) == IF "q" \in DOMAIN s THEN Abs(s.q) ELSE Abs(s.x)
CheckOne(r, n) ==
  LET s == r.steps[n] IN
  IF s.res = "panic" THEN s.op \o " panicked: " \o s.panic
  ELSE LET m == CheckOp(r, s, n) a == After(s) IN
       IF m # "" THEN m
       ELSE IF ~LockOk(a) THEN Req(s.sgntx = "", "a signer signs although no lock time can be determined")
       ELSE IF "v" \notin DOMAIN s.sgntx THEN "no signer for this PSBT"
       ELSE Req(s.sgntx = Tx(a), "the transaction that signers sign is not that of the PSBT")
Check(r) == First([n \in 1..Len(r.steps) |-> CheckOne(r, n)])
Note(r) == \A k \in 1..Len(r.steps) : r.steps[k].op \in {"fin", "ext"} => PrintT("NOTE " \o r.steps[k].op \o " " \o r.steps[k].res)
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
