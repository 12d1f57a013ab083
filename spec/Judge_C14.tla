------------------------------ MODULE Judge_C14 ------------------------------
(* Answers of key providers (v2 and v0 implementations).                      *)
EXTENDS JudgeBase
Want(map, r) ==
  IF r.k = "b" THEN
    IF map THEN {[st |-> "err"]}
    ELSE LET hit == {r.der[j][2] : j \in {x \in 1..Len(r.der) : r.der[x][1] = r.fp}}
         IN IF hit = {} THEN {[st |-> "none"]} ELSE {[st |-> "some", sk |-> h] : h \in hit}
  ELSE IF ~map THEN {[st |-> "err"]}
       ELSE LET hit == {r.held[j][2] : j \in {x \in 1..Len(r.held) : r.held[x][1] = r.pk}}
            IN IF hit = {} THEN {[st |-> "none"]} ELSE {[st |-> "some", sk |-> h] : h \in hit}
Ok(a, W) == \E w \in W : w.st = a.st /\ (w.st = "some" => w.sk = a.sk)
Check(r) == First([k \in 1..Len(r.rows) |-> LET x == r.rows[k] W == Want(r.map, x) IN
  First(<<Req(Ok(x.a2, W), "v2 provider answers " \o x.a2.st \o " wrongly"), Req(Ok(x.a0, W), "v0 provider answers " \o x.a0.st \o " wrongly")>>)])
Next == Step(Check)
==============================================================================
