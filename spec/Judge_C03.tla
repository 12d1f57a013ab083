------------------------------ MODULE Judge_C03 ------------------------------
(* Decoding hostile input: an answer, within bounds that grow with the input. *)
EXTENDS JudgeBase
(* KiB.  The constant part is what the vector and witness decoders may set aside for a    *)
(* claimed length before reading; the rest is proportional to the input.      *)
PeakMax(n) == 33000 + n
TotalMax(n) == 60000 + 4 * n
One(x) ==
  IF x.res = "panic" THEN "decoding " \o x.n \o " panics: " \o x.msg
  ELSE First(<< Req(x.res \in {"ok", "err"}, "no answer"),
                Req(x.res = "err" => x.msg # "", "an error of " \o x.n \o " displays as nothing"),
                Req(x.kb <= PeakMax(x.len), "decoding " \o x.n \o " holds memory out of proportion to its input"),
                Req(x.total <= TotalMax(x.len), "decoding " \o x.n \o " does work out of proportion to its input"),
                Req(x.s <= 30, "decoding " \o x.n \o " takes too long") >>)
Check(r) == First([k \in 1..Len(r.runs) |-> One(r.runs[k])])
Next == Step(Check)
==============================================================================
