------------------------------ MODULE Judge_C09 ------------------------------
(* The modifiable flags after every recorded signing step.                    *)
EXTENDS SignCheck
One(s) ==
  IF s.res = "panic" THEN "signing panicked: " \o s.panic ELSE
  LET p == Abs(s.p) TAB == TabOf(s.tab) IN
  IF s.res # "ok" THEN ""
  ELSE LET q == Abs(s.q) b == FlagsAfter(p, ProvOf(s), TAB) IN
       Req(FlagByte(q) = b, "flags " \o HexByte(FlagByte(q)) \o " after signing instead of " \o HexByte(b))
RECURSIVE Clear(_, _, _, _)
Clear(rows, k, b, rest) ==
  IF k > Len(rows) THEN "" ELSE
  LET x == rows[k] c == FlagStep(b, SubSeq(x[1], 1, 2)) IN
  IF x[2] # HexByte(c) THEN "ecdsa_clear_tx_modifiable(" \o x[1] \o ") turns " \o HexByte(b) \o " into " \o x[2] \o " instead of " \o HexByte(c)
  ELSE LET q == Abs(x[3]) p == [q EXCEPT !.g = Drop(@, {"mod"})] IN
       IF k > 1 /\ p # rest THEN "ecdsa_clear_tx_modifiable changed more than the flags" ELSE Clear(rows, k + 1, c, p)
Check(r) ==
  LET m == First([k \in 1..Len(r.steps) |-> One(r.steps[k])]) IN
  IF m # "" \/ r.clear = <<>> THEN m ELSE Clear(r.clear[2], 1, ByteAt(r.clear[1], 0), <<>>)
Next == Step(Check)
==============================================================================
