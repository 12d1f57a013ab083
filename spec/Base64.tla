------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 of hex strings, both ways.                                 *)
EXTENDS Psbt
(* base64 text of a hex string, in pieces to keep the recursion flat *)
RECURSIVE B64From(_, _)
B64From(h, i) == LET n == BLen(h) - i IN
  IF n <= 0 THEN "" ELSE IF n <= 3 THEN B64Chunk(h, i, n)
  ELSE B64Chunk(h, i, 3) \o B64From(h, i + 3)
RECURSIVE B64(_)
B64(h) == LET n == BLen(h) IN
  IF n <= 96 THEN B64From(h, 0)
  ELSE LET m == ((n \div 2) \div 3) * 3 IN B64(BSub(h, 0, m)) \o B64(BFrom(h, m))
VALS == [c \in RangeOf(B64C) |-> (CHOOSE k \in 1..64 : B64C[k] = c) - 1]
Ch(t, i) == SubSeq(t, i, i)
InB64(t, i) == Ch(t, i) \in DOMAIN VALS
RECURSIVE Data(_, _)
Data(t, n) == IF n > 0 /\ Ch(t, n) = "=" THEN Data(t, n - 1) ELSE n     \* length without padding
Group(t, i) ==          \* bytes of the four characters at i
  LET a == VALS[Ch(t, i)] b == VALS[Ch(t, i + 1)] c == VALS[Ch(t, i + 2)] d == VALS[Ch(t, i + 3)] IN
  HexByte(a * 4 + (b \div 16)) \o HexByte((b % 16) * 16 + (c \div 4)) \o HexByte((c % 4) * 64 + d)
Tail1(t, i, n) ==       \* n = 2 or 3 characters at i: <<canonical, bytes>>
  LET a == VALS[Ch(t, i)] b == VALS[Ch(t, i + 1)] IN
  IF n = 2 THEN <<b % 16 = 0, HexByte(a * 4 + (b \div 16))>>
  ELSE LET c == VALS[Ch(t, i + 2)] IN <<c % 4 = 0, HexByte(a * 4 + (b \div 16)) \o HexByte((b % 16) * 16 + (c \div 4))>>
RECURSIVE Groups(_, _, _)
Groups(t, i, k) ==      \* k groups from character i
  IF k = 0 THEN "" ELSE IF k = 1 THEN Group(t, i)
  ELSE LET m == k \div 2 IN Groups(t, i, m) \o Groups(t, i + 4 * m, k - m)
(* <<"bad"|"free"|"ok", bytes>>; free: padding or spare bits are not canonical *)
UnB64(t) ==
  LET n == Data(t, Len(t)) pad == Len(t) - n q == n \div 4 e == n % 4 IN
  IF pad > 2 \/ e = 1 \/ \E i \in 1..n : ~InB64(t, i) THEN <<"bad", "">>
  ELSE LET h == Groups(t, 1, q) x == IF e = 0 THEN <<TRUE, "">> ELSE Tail1(t, 4 * q + 1, e) IN
       <<IF x[1] /\ pad = (IF e = 0 THEN 0 ELSE 4 - e) THEN "ok" ELSE "free", h \o x[2]>>
=============================================================================
