------------------------------ MODULE Fin0Check ------------------------------
(* Judging one recorded call of the v0 finalizer or of the checking extractor. *)
EXTENDS JudgeBase, Final
Fund0(r, p, k, TAB) == Funding(p.i[k], r.tx.ins[k].vout, TAB)
X0(r, k) == [ver |-> r.tx.v, lock |-> r.tx.lt, seq |-> r.tx.ins[k].seq]
Mall(op) == op \in {"mall", "inpmall", "oldmall"}
Old(op) == op \in {"old", "oldmall"}
Single(op) == op \in {"inp", "inpmall"}
Final_(m) == Has(m, "fsig") \/ Has(m, "fwit")
(* a taproot signature may commit to what every input spends *)
UtxosFor(r, p, k, TAB) == Fund0(r, p, k, TAB).st = "ok" /\ (IsP2TR(Fund0(r, p, k, TAB).out.spk) => \A j \in 1..Len(p.i) : Fund0(r, p, j, TAB).st = "ok")
Must(r, p, k, TAB, s) ==
  /\ UtxosFor(r, p, k, TAB) /\ PsigTypesOk(p.i[k])
  /\ (Mall(r.op) \/ r.spends[k].sane)
  /\ MustFinalize(p.i[k], Fund0(r, p, k, TAB).out, r.spends[k], TOf(s.T[k]), X0(r, k))
Good(r, p, k, TAB, s, q) ==
  /\ Fund0(r, p, k, TAB).st = "ok"
  /\ FinalSpends(q.i[k], Fund0(r, p, k, TAB).out.spk, TOf(s.T[k]), X0(r, k))
CheckInput(r, p, k, TAB, s, q) ==
  IF k \in RangeOf(s.errs) THEN
     IF q.i[k] # p.i[k] THEN "an input that could not be finalized changed"
     ELSE Req(Old(r.op) \/ ~Must(r, p, k, TAB, s), "an input that can be satisfied is not finalized")
  ELSE IF ~Final_(q.i[k]) THEN "an input without final scripts is not reported"
  ELSE IF ~FinalForm(p.i[k], q.i[k], KEEP0) THEN "a finalized input does not hold exactly its UTXOs, unknown and proprietary pairs"
  ELSE Req(Good(r, p, k, TAB, s, q), "the final scripts of input " \o ToString(k) \o " do not satisfy the spent script")
CheckOld(r, p, TAB, s, q) ==
  LET N == 1..Len(p.i) IN
  IF s.res = "ok" THEN First([k \in N |-> CheckInput(r, p, k, TAB, s, q)])
  ELSE IF \A k \in N : PsigTypesOk(p.i[k]) /\ Must(r, p, k, TAB, s) THEN "not finalized although every input can be satisfied"
  ELSE First([k \in N |-> IF q.i[k] = p.i[k] THEN "" ELSE
          IF ~FinalForm(p.i[k], q.i[k], KEEP0) THEN "an input changed beyond being finalized" ELSE Req(Good(r, p, k, TAB, s, q), "the final scripts of an input do not satisfy the spent script")])
CheckFin(r, p, TAB, s, q) ==
  LET N == 1..Len(p.i) IN
  IF q.g # p.g \/ q.o # p.o \/ Len(q.i) # Len(p.i) THEN "something other than an input changed"
  ELSE IF (s.res = "ok") # (s.errs = <<>>) THEN "errors and result disagree"
  ELSE IF Old(r.op) THEN CheckOld(r, p, TAB, s, q)
  ELSE IF Single(r.op) THEN
    IF r.k \notin N THEN Req(s.res = "err" /\ q = p, "an input that does not exist is not refused")
    ELSE IF \E j \in N \ {r.k} : q.i[j] # p.i[j] THEN "another input changed"
    ELSE IF s.res = "err" /\ RangeOf(s.errs) # {r.k} THEN "the error names another input"
    ELSE CheckInput(r, p, r.k, TAB, s, q)
  ELSE IF ~(RangeOf(s.errs) \subseteq N) THEN "an error names no input"
  ELSE First([k \in N |-> CheckInput(r, p, k, TAB, s, q)])
CheckExt(r, p, TAB, s, q) ==
  LET N == 1..Len(q.i) e == s.ext IN
  IF e.st = "panic" THEN "extract panicked: " \o e.panic
  ELSE IF e.st = "ok" THEN
    First(<< Req(\A k \in N : Final_(q.i[k]), "extracted although an input is not final"),
             Req(TxHex(e.tx) = Val(p.g, "unsignedtx"), "the extracted transaction is another one"),
             Req(\A k \in N : e.sigs[k][1] = ValOr(q.i[k], "fsig", "") /\ e.sigs[k][2] = ValOr(q.i[k], "fwit", "00"), "the extracted transaction has other scripts"),
             Req(\A k \in N : Good(r, p, k, TAB, s, q), "extracted although the final scripts of an input do not satisfy the spent script") >>)
  ELSE Req(~\A k \in N : Final_(q.i[k]) /\ Psigs(q.i[k]) = {} /\ Good(r, p, k, TAB, s, q) /\ ~OddVersion(X0(r, k)), "a fully finalized PSBT does not extract")
CheckFinStep(r, p, TAB, s) ==
  IF s.res = "panic" THEN "the finalizer panicked: " \o s.panic
  ELSE LET q == Abs(s.q) m == CheckFin(r, p, TAB, s, q) IN IF m # "" THEN m ELSE CheckExt(r, p, TAB, s, q)
==============================================================================
