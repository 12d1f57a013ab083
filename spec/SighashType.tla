----------------------------- MODULE SighashType -----------------------------
(* PSBT sighash types: a 32-bit value (4 bytes, little endian hex), its text  *)
(* form, and the signature types it stands for.                               *)
EXTENDS Psbt
EcdsaTypes == {"01000000", "02000000", "03000000", "81000000", "82000000", "83000000"}
TapTypes == {"00000000"} \cup EcdsaTypes
Base(n) == CASE n = "00000000" -> "DEFAULT" [] SubSeq(n, 2, 2) = "1" -> "ALL" [] SubSeq(n, 2, 2) = "2" -> "NONE" [] SubSeq(n, 2, 2) = "3" -> "SINGLE"
Name(n) == "SIGHASH_" \o Base(n) \o (IF SubSeq(n, 1, 1) = "8" THEN "|SIGHASH_ANYONECANPAY" ELSE "")
NameTab == [s \in {Name(n) : n \in TapTypes} |-> CHOOSE n \in TapTypes : Name(n) = s]
Rev(n) == SubSeq(n, 7, 8) \o SubSeq(n, 5, 6) \o SubSeq(n, 3, 4) \o SubSeq(n, 1, 2)
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s
ShowType(n) == IF n \in TapTypes THEN Name(n) ELSE "0x" \o Strip0(Rev(n))
LOWER == [c \in {"A", "B", "C", "D", "E", "F"} |-> CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f"]
HexChar(c) == c \in DOMAIN NIB \/ c \in DOMAIN LOWER
Low(c) == IF c \in DOMAIN LOWER THEN LOWER[c] ELSE c
Char(s, k) == SubSeq(s, k, k)
RECURSIVE LowAll(_)
LowAll(s) == IF s = "" THEN "" ELSE Low(SubSeq(s, 1, 1)) \o LowAll(SubSeq(s, 2, Len(s)))
INVALID == "invalid"
ParseHex(s) ==
  IF s = "" \/ \E k \in 1..Len(s) : ~HexChar(Char(s, k)) THEN INVALID
  ELSE LET d == Strip0(LowAll(s)) IN IF Len(d) > 8 THEN INVALID
       ELSE Rev(SubSeq("00000000", 1, 8 - Len(d)) \o d)
Parse(s) == IF s \in DOMAIN NameTab THEN NameTab[s] ELSE ParseHex(IF StartsWith(s, "0x") THEN SubSeq(s, 3, Len(s)) ELSE s)
==============================================================================
