------------------------------ MODULE Judge_C11 ------------------------------
EXTENDS CombineCheck
(* Only the extended keys: outcome and merged key sources, in both orders.    *)
One(s) ==
  IF s.res = "panic" THEN "combine panicked: " \o s.panic ELSE
  LET gx == MapOf(s.x.g) gy == MapOf(s.y.g) ok == XpubsOk(gx, gy) IN
  IF (s.res = "ok") # ok THEN (IF ok THEN "combine refuses compatible key sources" ELSE "combine accepts contradicting key sources")
  ELSE IF ~ok THEN "" ELSE Req(Only(MapOf(s.q.g), {"xpub"}) = XpubsMerged(gx, gy), "combine keeps the wrong key source")
Check(r) == First([k \in 1..Len(r.steps) |-> One(r.steps[k])])
Next == Step(Check)
==============================================================================
