------------------------------ MODULE Judge_C18 ------------------------------
(* Recorded fees and spent outputs, v2 and v0.                                *)
EXTENDS FeeCheck
CheckFee(fs, outs, f, v0) ==
  LET E == FeeErrs(fs, outs) IN
  IF f.st = "panic" THEN "fee panicked: " \o f.msg
  ELSE IF f.st = "ok" THEN
     IF E # {} THEN "a fee is reported although there is an error: " \o ToString(E)
     ELSE Req(f.fee = Le8(FeeOf(fs, outs)), "wrong fee " \o f.fee)
  ELSE IF E = {} THEN "no fee although it can be computed"
  ELSE Req(f.st \in E \/ (v0 /\ f.st = "overflow" /\ E \cap {"inoverflow", "outoverflow"} # {}), "fee error " \o f.st \o " does not apply")
CheckIter(fs, it) ==
  IF Len(it) # Len(fs) THEN "another number of spent outputs than inputs"
  ELSE Req(\A k \in 1..Len(fs) : SameFund(fs[k], it[k]), "the output spent by some input is wrong")
(* asking for the UTXO of one input, for existing and other indices *)
CheckAt(fs, at) ==
  LET Bad == {k \in 1..Len(at) : IF at[k].k < Len(fs)
                 THEN LET f == fs[at[k].k + 1] s == at[k].r IN ~(IF f.st = "ok" THEN SameFund(f, s) ELSE s.st \in {"missing", "oob"})
                 ELSE at[k].r.st # "index"}
  IN Req(Bad = {}, "the output spent by an input is wrong when asked for by index")
One(p, t, d, TAB, v0) ==
  LET fs == FundsOf(p, VoutsOf(t), TAB) IN
  First(<<CheckFee(fs, OutAmts(t), d.fee, v0), CheckIter(fs, d.iter), CheckAt(fs, d.at)>>)
Check(r) ==
  LET TAB == TabOf(r.tab)
      p2 == IF "p" \in DOMAIN r THEN Abs(r.p) ELSE <<>> p0 == IF "p0" \in DOMAIN r THEN Abs(r.p0) ELSE <<>>
      m2 == IF "p" \in DOMAIN r THEN One(p2, [ins |-> [k \in 1..Len(p2.i) |-> [vout |-> Val(p2.i[k], "vout")]], outs |-> [k \in 1..Len(p2.o) |-> [amt |-> Val(p2.o[k], "amount")]]], r.d2, TAB, FALSE) ELSE ""
  IN IF m2 # "" THEN "v2: " \o m2
     ELSE IF "p0" \notin DOMAIN r THEN ""
     ELSE LET m0 == One(p0, r.tx0, r.d0, TAB, TRUE) IN
          IF m0 # "" THEN "v0: " \o m0 ELSE Req(TxHex(r.tx0) = Val(p0.g, "unsignedtx"), "oracle and PSBT disagree on the transaction")
Note(r) == (IF "p" \in DOMAIN r THEN PrintT("NOTE v2-" \o r.d2.fee.st) ELSE TRUE) /\ (IF "p0" \in DOMAIN r THEN PrintT("NOTE v0-" \o r.d0.fee.st) ELSE TRUE)
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
