---------------------------- MODULE CombineCheck ----------------------------
(* Judging recorded calls of combine.                                        *)
EXTENDS JudgeBase, Combine
Acc(v, x, y) == IF v = 2 THEN Accepts(x, y) ELSE Accepts0(x, y)
CheckStep(v, s) ==
  IF s.res = "panic" THEN "combine panicked: " \o s.panic ELSE
  LET x == Abs(s.x) y == Abs(s.y) a == Acc(v, x, y) IN
  IF s.res = "err" THEN Req(~a, "combine refuses PSBTs for the same transaction")
  ELSE IF ~a THEN "combine accepts PSBTs that it must refuse"
  ELSE LET q == Abs(s.q) IN
       First(<< Req(MergeRel(x, y, q), "the combined PSBT does not hold exactly the pairs of both"),
                Req(v = 2 => SameId(x, q), "the combined PSBT has another identifier"),
                Req(x = y => q = x, "combining a PSBT with itself changes it") >>)
Comm(x, y, p, q) == NoConflicts(x, y) => ButFlags(p) = ButFlags(q)
(* maps combined one by one: [result, map] *)
CheckPart(same, x, y, q, loose) ==
  IF q[1] = "panic" THEN "combining single maps panicked: " \o q[2]
  ELSE IF q[1] = "err" THEN Req(~same, "combining single maps is refused")
  ELSE First(<< Req(same, "maps for different inputs or outputs are combined"),
                Req(MapRel(x, y, RangeOf(q[2]), loose), "a combined map does not hold exactly the pairs of both") >>)
CheckParts(r) ==
  LET x == Abs(r.steps[1].x) y == Abs(r.steps[1].y) IN
  First([k \in 1..Len(r.ins) |-> CheckPart(r.v = 0 \/ SameIn(x.i[k], y.i[k]), x.i[k], y.i[k], r.ins[k], LooseIn(x.i[k], y.i[k]))]
        \o [k \in 1..Len(r.outs) |-> CheckPart(r.v = 0 \/ SameOut(x.o[k], y.o[k]), x.o[k], y.o[k], r.outs[k], {})])
CheckRec(r) ==
  LET S == r.steps m == First([k \in 1..Len(S) |-> CheckStep(r.v, S[k])] \o << CheckParts(r) >>) IN
  IF m # "" THEN m
  ELSE IF (S[1].res = "ok") # (S[2].res = "ok") THEN "combine accepts one order and refuses the other"
  ELSE IF S[1].res = "ok" /\ ~Comm(Abs(S[1].x), Abs(S[1].y), Abs(S[1].q), Abs(S[2].q)) THEN "combine depends on the order of its operands"
  ELSE IF Len(S) = 7 /\ S[5].res = "ok" /\ S[7].res = "ok"
       THEN LET a == Abs(S[1].x) b == Abs(S[1].y) c == Abs(S[5].y) IN
            IF ~(NoConflicts(a, b) /\ NoConflicts(b, c) /\ NoConflicts(a, c)) THEN ""
            ELSE First(<< Req(Abs(S[5].q) = Abs(S[7].q), "combine is not associative"),
                          Req(S[6].res = "ok" => Abs(S[6].q) = Abs(S[1].q), "combining again with an operand changes the result") >>)
       ELSE ""
=============================================================================
