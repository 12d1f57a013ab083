------------------------------ MODULE Judge_C08 ------------------------------
(* Every recorded sequence of operations: each step is the one the            *)
(* specification takes.                                                       *)
EXTENDS JudgeBase, Build
Same(q, d) == IF "err" \in DOMAIN d THEN ~LockOk(q) ELSE Abs(d) = q
RECURSIVE Run(_, _, _)
Run(r, s, k) ==
  IF k > Len(r.ops) THEN "" ELSE
  LET op == r.ops[k] o == r.steps[k] IN
  IF "panic" \in DOMAIN o THEN "operation " \o op[1] \o " panicked: " \o o.panic ELSE
  IF ~Enabled(s, op[1]) THEN "HARNESS: operation not enabled" ELSE
  LET t == StepOp(s, op) IN
  IF o.ok # t.ok THEN "operation " \o op[1] \o (IF t.ok THEN " was refused" ELSE " was not refused")
  ELSE IF t.role = "dead" THEN ""
  ELSE IF ~Same(t.p, o.p) THEN "operation " \o op[1] \o " leaves another PSBT than prescribed"
  ELSE Run(r, [role |-> t.role, p |-> t.p], k + 1)
Check(r) == Run(r, IF "new" \in DOMAIN r.start THEN [role |-> "creator", p |-> NewPsbt] ELSE [role |-> "psbt", p |-> Abs(r.start)], 1)
Next == Step(Check)
==============================================================================
