------------------------------ MODULE Judge_C05 ------------------------------
(* The text and serde forms of a PSBT.                                        *)
EXTENDS WireCheck, Base64
Text(r) ==
  LET u == UnB64(r.text) IN
  IF r.v.res = "panic" THEN "parsing text panics: " \o r.v.panic
  ELSE IF u[1] = "bad" THEN Req(r.v.res = "err", "text that is not base64 is accepted")
  ELSE IF u[1] = "free" /\ r.v.res = "err" THEN ""
  ELSE Run(r.ver, r.sp, OrcOf(r.orc), u[2], r.v)
(* rust-bitcoin's own TapTree does not come back from a binary serde format;    *)
(* the property is about the JSON form                                           *)
Foreign(w, p) == StartsWith(w.n, "binary") /\ \E k \in 1..Len(p.o) : Has(p.o[k], "taptree")
Way(r, w, p) ==
  IF Foreign(w, p) THEN ""
  ELSE IF w.res = "err" THEN w.n \o " does not come back: " \o w.err
  ELSE First(<< Req(w.eq, w.n \o " comes back as another value"),
                LET d == Abs(w.d) IN
                Req((d.g # {} => d.g = p.g) /\ (d.i # <<>> => \A k \in 1..Len(d.i) : d.i[k] = p.i[k])
                     /\ (d.o # <<>> => \A k \in 1..Len(d.o) : d.o[k] = p.o[k]), w.n \o " comes back with other contents") >>)
Forms(r) ==
  IF r.res # "ok" THEN "encoding a PSBT panics: " \o r.msg
  ELSE LET p == Abs(r.p) IN
  First(<< Req(IsEncoding(r.ver, r.sp, r.ser, p), "the serialization does not hold exactly the pairs of the PSBT"),
           Req(r.hexs = r.ser, "the hex text is not that of the serialized bytes"),
           Req(r.b64 = B64(r.ser), "the base64 text is not that of the serialized bytes"),
           IF r.text.res # "ok" THEN "its own base64 text is refused"
           ELSE Req(Abs(r.text.d) = p, "parsing the base64 text gives another PSBT"),
           First([k \in 1..Len(r.ways) |-> Way(r, r.ways[k], p)]) >>)
Check(r) == IF r.k = "text" THEN Text(r) ELSE Forms(r)
Next == Step(Check)
==============================================================================
