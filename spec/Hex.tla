-------------------------------- MODULE Hex --------------------------------
(* Byte strings are lower-case hex strings; numbers are little-endian byte  *)
(* sequences, because TLC integers are 32-bit signed.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NIB == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
          CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
            [] c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12 [] c = "d" -> 13
            [] c = "e" -> 14 [] c = "f" -> 15]
DIG == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>

BLen(h) == Len(h) \div 2
BSub(h, i, n) == SubSeq(h, 2*i + 1, 2*(i + n))              \* n bytes from offset i (0-based)
BFrom(h, i) == SubSeq(h, 2*i + 1, Len(h))
ByteAt(h, i) == 16 * NIB[SubSeq(h, 2*i + 1, 2*i + 1)] + NIB[SubSeq(h, 2*i + 2, 2*i + 2)]
Bytes(h) == [i \in 1..BLen(h) |-> ByteAt(h, i - 1)]
HexByte(b) == DIG[(b \div 16) + 1] \o DIG[(b % 16) + 1]
RECURSIVE HexOf(_)
HexOf(bs) == IF bs = <<>> THEN "" ELSE HexByte(Head(bs)) \o HexOf(Tail(bs))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
StartsWith(h, p) == Len(h) >= Len(p) /\ SubSeq(h, 1, Len(p)) = p
EndsWith(h, p) == Len(h) >= Len(p) /\ SubSeq(h, Len(h) - Len(p) + 1, Len(h)) = p

(* u32 as a pair of 16-bit halves, ordered lexicographically *)
U32(h) == <<ByteAt(h, 3) * 256 + ByteAt(h, 2), ByteAt(h, 1) * 256 + ByteAt(h, 0)>>
Lt32(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le32(a, b) == a = b \/ Lt32(a, b)
MaxHex32(S) == CHOOSE h \in S : \A g \in S : Le32(U32(g), U32(h))
TIME0 == <<7629, 25856>>                                    \* 500_000_000

(* CompactSize of a small integer *)
VI(n) == IF n < 253 THEN HexByte(n)
         ELSE IF n < 65536 THEN "fd" \o HexByte(n % 256) \o HexByte(n \div 256)
         ELSE "fe" \o HexByte(n % 256) \o HexByte((n \div 256) % 256)
                   \o HexByte((n \div 65536) % 256) \o HexByte(n \div 16777216)
WithLen(h) == VI(BLen(h)) \o h

(* naturals: little-endian byte sequences without trailing zero *)
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Nat8(h) == Norm(Bytes(h))
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, c, n) == IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == At(a, i) + At(b, i) + c
                            IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256, n)
BAdd(a, b) == Norm(AddC(a, b, 1, 0, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) < At(b, i) THEN -1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE CmpAt(a, b, i - 1)
BCmp(a, b) == CmpAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET d == a[i] - At(b, i) - c
                         IN <<IF d < 0 THEN d + 256 ELSE d>> \o SubC(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
BSubtract(a, b) == Norm(SubC(a, b, 1, 0))                    \* requires a >= b
RECURSIVE MulC(_, _, _, _)
MulC(a, m, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o MulC(a, m, i, c \div 256))
                    ELSE LET s == a[i] * m + c IN <<s % 256>> \o MulC(a, m, i + 1, s \div 256)
BMul(a, m) == Norm(MulC(a, m, 1, 0))                         \* 0 <= m < 2^22
RECURSIVE BSum(_)
BSum(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSum(Tail(s)))
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BOf(n \div 256)
(* quotient and remainder by a small number, from the most significant byte down *)
RECURSIVE DivC(_, _, _, _)
DivC(a, m, i, r) == IF i = 0 THEN <<>> ELSE LET s == r * 256 + a[i] IN Append(DivC(a, m, i - 1, s % m), s \div m)
BDiv(a, m) == Norm(DivC(a, m, Len(a), 0))                    \* 0 < m < 2^22
Le8(a) == HexOf([k \in 1..8 |-> At(a, k)])                   \* 8 bytes, requires FitsU64(a)
U64MAX == <<255,255,255,255,255,255,255,255>>
FitsU64(a) == Len(Norm(a)) <= 8

(* base64 (RFC 4648, standard alphabet, with padding) of a hex string *)
B64C == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
          "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "0","1","2","3","4","5","6","7","8","9","+","/">>
B64Chunk(h, i, n) ==      \* chunk of n <= 3 bytes at byte offset i
  LET a == ByteAt(h, i)
      b == IF n > 1 THEN ByteAt(h, i + 1) ELSE 0
      c == IF n > 2 THEN ByteAt(h, i + 2) ELSE 0
  IN B64C[(a \div 4) + 1] \o B64C[(a % 4) * 16 + (b \div 16) + 1]
     \o (IF n > 1 THEN B64C[(b % 16) * 4 + (c \div 64) + 1] ELSE "=")
     \o (IF n > 2 THEN B64C[(c % 64) + 1] ELSE "=")
=============================================================================
