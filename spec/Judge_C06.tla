------------------------------ MODULE Judge_C06 ------------------------------
(* Every recorded PSBT: the lock time is the prescribed one, in every role.   *)
EXTENDS JudgeBase
Check(r) ==
  LET p == Abs(r.p) L == LockTime(p) ok == L # LOCKERR TAB == TabOf(r.tab) v == r.r IN
  IF "panic" \in DOMAIN v THEN "a role panicked: " \o v.panic ELSE
  First(<<
    Req(v.lock = L, "lock time " \o v.lock \o " instead of " \o L),
    Req(v.ctor = ok, "constructor psbt() accepts/refuses wrongly"),
    Req(v.ctorupd = ok, "constructor updater() accepts/refuses wrongly"),
    Req(v.upd = ok, "updater accepts/refuses wrongly"),
    Req(v.sgn = ok, "signer accepts/refuses wrongly"),
    Req(v.ext = ok, "extractor accepts/refuses wrongly"),
    Req(v.fin = ok, "finalizer accepts/refuses wrongly"),
    Req(ok => v.sgntx.lt = L, "unsigned transaction has another lock time"),
    Req(ok => v.exttx.lt = L, "extracted transaction has another lock time"),
    Req(ok => \A k \in 1..Len(v.ids) : v.ids[k] = TAB[IdHex(p)], "identifier is not computed with this lock time") >>)
Next == Step(Check)
=============================================================================
