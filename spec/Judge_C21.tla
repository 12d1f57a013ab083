------------------------------ MODULE Judge_C21 ------------------------------
(* Recorded calls of the v0 signer, and the digests the v0 code offers.        *)
EXTENDS Sign0Check
(* the digest functions: sighash_ecdsa and sighash_msg *)
CheckDig(p, t, TAB, d) ==
  LET k == d.k n == Len(p.i) vs == VS(t) tab == TabOf(d.tab) IN
  IF d.res = "panic" THEN d.f \o " panicked: " \o d.panic
  ELSE IF k > n THEN Req(d.res = "err", d.f \o " answers for an input that does not exist")
  ELSE LET ok == IF d.f = "sighash_ecdsa" THEN Spent(p, vs, k, TAB) ELSE \A j \in 1..n : Spent(p, vs, j, TAB)
           kind == Kind0(p, vs, k, TAB)
           want == IF ~ok THEN ""
                   ELSE IF kind = "wit" THEN (IF d.f = "sighash_ecdsa" THEN "" ELSE "any")
                   ELSE IF kind = "tr" THEN IF d.f = "sighash_ecdsa" \/ TapType(p.i[k]) \notin TAPTYPES \/ (TapByte(p.i[k]) \in SGL /\ k > Len(t.outs)) THEN ""
                                            ELSE IF d.leaf = "" THEN "key" ELSE "leaf:" \o d.leaf
                   ELSE DigestOf(p.i[k], Utxo(p, vs, k, TAB).out.spk)
       IN IF want = "any" THEN ""
          ELSE IF want = "" THEN Req(d.res = "err", d.f \o " answers for an input that cannot be signed")
          ELSE IF d.res = "err" THEN d.f \o " refuses an input that can be signed"
          ELSE IF want \notin DOMAIN tab THEN "oracle has no digest for what is prescribed"
          ELSE Req(d.d = tab[want] /\ (d.f = "sighash_ecdsa" => d.t = ValOr(p.i[k], "sighash", "01000000"))
                   /\ (d.f = "sighash_msg" => d.alg = (IF kind = "tr" THEN "tap" ELSE IF kind \in {"bare", "sh"} THEN "legacy" ELSE "v0")), d.f \o " computes another digest")
Check(r) ==
  LET TAB == TabOf(r.tab) m == First([k \in 1..Len(r.steps) |-> CheckSign(r.steps[k], r.tx, TAB)]) IN
  IF m # "" THEN m ELSE IF r.odd THEN First([k \in 1..Len(r.digs) |-> Req(r.digs[k].f = "sighash_msg" \/ r.digs[k].res # "panic", r.digs[k].f \o " panicked")])
  ELSE LET p == Abs(r.p) IN First([k \in 1..Len(r.digs) |-> CheckDig(p, r.tx, TAB, r.digs[k])])
Next == Step(Check)
==============================================================================
