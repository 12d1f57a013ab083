------------------------------ MODULE FeeCheck ------------------------------
(* Judging recorded fees and limited extractions.                             *)
EXTENDS JudgeBase, Fee
FundsOf(p, vouts, TAB) == [k \in 1..Len(p.i) |-> Funding(p.i[k], vouts[k], TAB)]
VoutsOf(t) == [k \in 1..Len(t.ins) |-> t.ins[k].vout]
OutAmts(t) == [k \in 1..Len(t.outs) |-> t.outs[k].amt]
SameFund(f, s) == IF f.st = "ok" THEN s.st = "ok" /\ s.amt = f.out.amt /\ s.spk = f.out.spk ELSE s.st = f.st
==============================================================================
