------------------------------ MODULE Judge_C07 ------------------------------
(* A family of variants of one PSBT: every role reports the identifier that   *)
(* the specification computes, so it moves exactly when IdHex moves.          *)
EXTENDS JudgeBase
Check(r) ==
  LET n == Len(r.ps)
      TAB == TabOf(r.tab)
      id == [k \in 1..n |-> LET p == Abs(r.ps[k]) IN IF LockOk(p) THEN IdHex(p) ELSE LOCKERR]
      One(k) ==
        LET v == r.rs[k] IN
        IF "panic" \in DOMAIN v THEN "a role panicked: " \o v.panic
        ELSE IF id[k] = LOCKERR THEN Req(\A j \in 1..Len(v.ids) : v.ids[j] = "", "identifier for an undetermined lock time")
        ELSE IF id[k] \notin DOMAIN TAB THEN "oracle and specification disagree"
        ELSE First(<<
          Req(\A j \in 1..Len(v.ids) : v.ids[j] = TAB[id[k]], "a role reports another identifier"),
          Req(r.wire[k] = TAB[id[k]], "identifier changes over the wire: " \o r.wire[k]) >>)
      Pairs == {<<a, b>> \in (1..n) \X (1..n) : a < b /\ id[a] # LOCKERR /\ id[b] # LOCKERR}
      Same(a, b) == r.rs[a].ids = r.rs[b].ids
  IN First(<< First([k \in 1..n |-> One(k)]),
       Req(\A ab \in Pairs : Same(ab[1], ab[2]) <=> (id[ab[1]] = id[ab[2]]), "two variants compare wrongly") >>)
Next == Step(Check)
=============================================================================
