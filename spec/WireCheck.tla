------------------------------ MODULE WireCheck ------------------------------
(* Judging recorded runs of the decoders and encoders.                         *)
EXTENDS JudgeBase, Wire
OrcOf(js) == TabOf(js)
(* one decoder run x = [res, d?, ser?] on bytes h *)
Run(ver, sp, ORC, h, x) ==
  LET n == IF ver = 2 THEN "the v2 decoder " ELSE "the v0 decoder " IN
  IF x.res = "panic" THEN n \o "panics: " \o x.panic
  ELSE LET D == Decode(ORC, ver, sp, h) IN
  IF x.res = "err" THEN Req(D.st # "ok", n \o "refuses a well-formed PSBT: " \o x.err)
  ELSE First(<< Req(D.st # "bad", n \o "accepts a malformed PSBT"),
                Req(D.st \notin {"ok", "free"} \/ Abs(x.d) = D.p, n \o "misreads a pair"),
                Req(IsEncoding(ver, sp, x.ser, Abs(x.d)), "serializing what was decoded does not write its pairs") >>)
(* r = [sp, hex, orc, v2, v0] *)
CheckBytes(r, vers) ==
  LET ORC == OrcOf(r.orc) IN
  First(<< IF 2 \in vers THEN Run(2, r.sp, ORC, r.hex, r.v2) ELSE "",
           IF 0 \in vers THEN Run(0, r.sp, ORC, r.hex, r.v0) ELSE "",
           Req(~(r.v2.res = "ok" /\ r.v0.res = "ok"), "one byte string is accepted as v0 and as v2") >>)
(* r = [ver, sp, p, res, ser, back, ser2, alts]: the round trip of a PSBT *)
CheckRound(r) ==
  IF r.res # "ok" THEN "serializing or deserializing a PSBT fails: " \o r.msg
  ELSE LET p == Abs(r.p) IN
  First(<< Req(IsEncoding(r.ver, r.sp, r.ser, p), "the serialization does not hold exactly the pairs of the PSBT"),
           Req(Abs(r.back) = p, "deserializing the serialization gives another PSBT"),
           Req(r.eq, "the decoded PSBT does not equal the original"),
           Req(r.ser2 = r.ser, "serializing again gives other bytes"),
           Req(\A k \in 1..Len(r.alts) : r.alts[k] = r.ser, "the history of the PSBT changes its serialization") >>)
=============================================================================
