------------------------------ MODULE JudgeBase ------------------------------
(* Trace checking: every line of the trace file is one observed step of the   *)
(* implementation.  A line the specification does not allow is printed as     *)
(* BAD and the run continues with the next line.  A judge module defines      *)
(* Check(rec) = "" or what is wrong, and Next == Step(Check).                 *)
EXTENDS Psbt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Step(Chk(_)) ==
  /\ l <= Len(Recs)
  /\ LET msg == Chk(Recs[l]) IN IF msg = "" THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o msg)
  /\ l' = l + 1
(* first non-empty message *)
RECURSIVE First(_)
First(ms) == IF ms = <<>> THEN "" ELSE IF Head(ms) # "" THEN Head(ms) ELSE First(Tail(ms))
Req(c, msg) == IF c THEN "" ELSE msg
(* a table given as a JSON array of pairs *)
TabOf(js) == [k \in {js[i][1] : i \in 1..Len(js)} |-> js[CHOOSE i \in 1..Len(js) : js[i][1] = k][2]]
AllRead == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
