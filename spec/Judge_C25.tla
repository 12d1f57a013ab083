------------------------------ MODULE Judge_C25 ------------------------------
(* Recorded conversions of sighash types.                                     *)
EXTENDS JudgeBase, SighashType
CheckN(x) == LET n == x.n IN
  First(<<
    Req(x.u32 = n, "the value is not kept"),
    Req(x.ecdsa = (IF n \in EcdsaTypes THEN n ELSE INVALID), "conversion to an ECDSA type: " \o x.ecdsa),
    Req(x.tap = (IF n \in TapTypes THEN n ELSE INVALID), "conversion to a taproot type: " \o x.tap),
    Req(n \in EcdsaTypes \/ x.ecdsaerr = n, "the ECDSA conversion error reports another value"),
    Req(n \in TapTypes \/ x.taperr = n, "the taproot conversion error reports another value"),
    Req(n \in EcdsaTypes => x.ecdsaback = n, "ECDSA type does not convert back"),
    Req(n \in TapTypes => x.tapback = n, "taproot type does not convert back"),
    Req(x.text = ShowType(n), "text form is " \o x.text),
    Req(x.back = n, "text form parses back to " \o x.back),
    Req(x.v2 = n /\ x.v0 = n, "serialization changes the value"),
    Req(x.serde = n, "serde changes the value") >>)
CheckS(x) == Req(x.v = Parse(x.s), "text '" \o x.s \o "' parses to " \o x.v \o " instead of " \o Parse(x.s))
Check(r) ==
  IF "panic" \in DOMAIN r THEN "a conversion panicked: " \o r.panic
  ELSE First([k \in 1..Len(r.ns) |-> CheckN(r.ns[k])]) \o First([k \in 1..Len(r.texts) |-> CheckS(r.texts[k])])
Note(r) == \A k \in 1..Len(r.texts) : PrintT("NOTE " \o (IF r.texts[k].v = INVALID THEN "text-rejected" ELSE "text-accepted"))
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
