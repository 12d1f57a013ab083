------------------------------ MODULE Judge_C20 ------------------------------
(* Recorded answers of the v0 signer checks.                                   *)
EXTENDS JudgeBase, Sign0
Check(r) ==
  IF r.res = "panic" THEN "signer_checks panicked: " \o r.panic
  ELSE IF r.odd THEN ""
  ELSE LET p == Abs(r.p) t == r.tx N == 1..Len(p.i)
           W == Checks(p, [k \in N |-> t.ins[k].vout], [k \in N |-> t.ins[k].txid], TabOf(r.tab), TabOf(r.ht), TabOf(r.ids))
       IN IF TxHex(t) # Val(p.g, "unsignedtx") THEN "oracle and PSBT disagree on the transaction"
          ELSE IF ~PrintT("NOTE " \o r.res) THEN ""
          ELSE IF r.res \in W THEN ""
          ELSE IF r.res = "ok" THEN "accepted although " \o ToString(W) \o " must be reported"
          ELSE IF W = {"ok"} THEN "refused with " \o r.res \o " although every rule is kept"
          ELSE "refused with " \o r.res \o " instead of " \o ToString(W)
Next == Step(Check)
==============================================================================
