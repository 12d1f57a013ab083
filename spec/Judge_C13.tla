------------------------------ MODULE Judge_C13 ------------------------------
(* Recorded calls of the v2 signer and of sighash_ecdsa.                      *)
EXTENDS SignCheck
CheckDig(p, TAB, r) ==
  LET n == Len(p.i)
      One(k) == LET d == r.digs[k] IN
        IF "panic" \in DOMAIN d THEN "sighash_ecdsa panicked: " \o d.panic
        ELSE IF k > n THEN Req(~d.ok, "sighash_ecdsa answers for an input that does not exist")
        ELSE LET want == IF IsEcdsa(p, k, TAB) THEN Digest(p, k, TAB) ELSE "" IN
             IF want = "" THEN Req(~d.ok, "sighash_ecdsa answers for an input that cannot be signed")
             ELSE IF ~d.ok THEN "sighash_ecdsa refuses an input that can be signed"
             ELSE IF want \notin {d.tab[j][1] : j \in 1..Len(d.tab)} THEN "oracle has no digest for what is prescribed"
             ELSE Req(d.d = TabOf(d.tab)[want] /\ d.t = ValOr(p.i[k], "sighash", "01000000"), "sighash_ecdsa computes another digest")
  IN First([k \in 1..Len(r.digs) |-> One(k)])
Check(r) ==
  LET p == Abs(r.p) TAB == TabOf(r.tab) m == First([k \in 1..Len(r.steps) |-> CheckSign(r.steps[k])]) IN
  IF m # "" THEN m ELSE IF LockOk(p) /\ CountsOk(p) THEN CheckDig(p, TAB, r) ELSE ""
Next == Step(Check)
==============================================================================
