------------------------------ MODULE FinCheck ------------------------------
(* Judging one recorded call of the v2 finalizer.                             *)
EXTENDS JudgeBase, Final
CheckOk(p, TAB, r) ==
  LET q == Abs(r.q) N == 1..Len(p.i) IN
  IF q.g # p.g THEN "the global map changed" ELSE IF q.o # p.o THEN "an output changed"
  ELSE IF Len(q.i) # Len(p.i) THEN "the number of inputs changed"
  ELSE First([k \in N |->
     IF ~(Has(q.i[k], "fsig") /\ Has(q.i[k], "fwit")) THEN "an input of the result is not final"
     ELSE IF ~FinalForm(p.i[k], q.i[k], KEEP2) THEN "a finalized input does not hold exactly its UTXOs, transaction fields, unknown and proprietary pairs"
     ELSE Req(FinalSpends(q.i[k], Fund(p, k, TAB).out.spk, TOf(r.T[k]), X2(p, k)), "the final scripts of input " \o ToString(k) \o " do not satisfy the spent script")])
CheckExt(p, r) ==
  IF ~r.check THEN "the finalized PSBT does not pass its own interpreter check"
  ELSE IF ~r.wire THEN "the finalized PSBT does not survive serialization"
  ELSE Req("ext" \in DOMAIN r, "the finalized PSBT does not extract")
CheckTx(p, r) ==
  LET q == Abs(r.q) IN
  IF r.ext.tx # Tx(p) THEN "the extracted transaction is not the one that was signed"
  ELSE Req(\A k \in 1..Len(q.i) : r.ext.sigs[k][1] = Val(q.i[k], "fsig") /\ r.ext.sigs[k][2] = Val(q.i[k], "fwit"), "the extracted transaction has other scripts")
Musts(p, TAB, r) == \A k \in 1..Len(p.i) : MustFinalize(p.i[k], Fund(p, k, TAB).out, r.spends[k], TOf(r.T[k]), X2(p, k))
CheckFin(r) ==
  LET p == Abs(r.p) TAB == TabOf(r.tab) IN
  IF "panic" \in DOMAIN r THEN "the finalizer panicked: " \o r.panic
  ELSE IF (r.new = "ok") # CanFinalize(p, TAB) THEN (IF r.new = "ok" THEN "finalizer created although it must not" ELSE "finalizer refused")
  ELSE IF r.new # "ok" THEN ""
  ELSE IF r.res = "ok" THEN LET a == CheckOk(p, TAB, r) IN IF a # "" THEN a ELSE LET b == CheckExt(p, r) IN IF b # "" THEN b ELSE CheckTx(p, r)
  ELSE Req(~Musts(p, TAB, r), "not finalized although every input can be satisfied")
==============================================================================
