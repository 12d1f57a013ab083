------------------------------ MODULE Judge_C24 ------------------------------
(* Recorded updates of v0 inputs and outputs with descriptors.                 *)
EXTENDS JudgeBase, Desc
StepMsg(r, s, TAB, IDS) ==
  LET D == r.ds[s.d] p == Abs(s.p) q == Abs(s.q) isin == s.op \in {"in", "uin"} k == s.k
      g == Goes(s.op, p, k, r.tx, D, TAB, IDS) IN
  IF s.res = "panic" THEN s.op \o " panicked: " \o s.panic
  ELSE IF ~PrintT("NOTE " \o s.op \o " " \o s.res \o (IF s.res = "ok" THEN " " \o D.kind ELSE "")) THEN ""
  ELSE IF g /\ s.res # "ok" THEN s.op \o " with " \o D.text \o " failed with " \o s.res \o " although the data agree"
  ELSE IF ~g /\ s.res = "ok" THEN s.op \o " with " \o D.text \o " succeeded although the data do not agree"
  ELSE IF ~g THEN Req(p = q, s.op \o " with " \o D.text \o " failed and changed the PSBT")
  ELSE IF q # (IF isin THEN [p EXCEPT !.i[k] = q.i[k]] ELSE [p EXCEPT !.o[k] = q.o[k]]) THEN s.op \o " changed another part of the PSBT"
  ELSE IF s.op \in {"uin", "uout"} /\ s.spk # D.spk THEN s.op \o " returned another descriptor"
  ELSE LET m == UpdatedOk(IF isin THEN p.i[k] ELSE p.o[k], IF isin THEN q.i[k] ELSE q.o[k], D, isin, TabOf(s.trees)) IN
       IF m = "" THEN "" ELSE s.op \o " with " \o D.text \o ": " \o m
Check(r) ==
  LET TAB == TabOf(r.tab) IDS == TabOf(r.ids) IN First([j \in 1..Len(r.steps) |-> StepMsg(r, r.steps[j], TAB, IDS)])
Next == Step(Check)
==============================================================================
