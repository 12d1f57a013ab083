------------------------------- MODULE MC_C25 -------------------------------
(* Texts are written character by character; every text denotes one value or  *)
(* none, and printing is a right inverse of parsing.                          *)
EXTENDS SighashType, Json
CONSTANTS Chars, MaxLen, Words
VARIABLES s, v
vars == <<s, v>>
BYTES == {HexByte(b) : b \in 0..255}
Values == {b \o "000000" : b \in BYTES} \cup {b \o "010000" : b \in {"00", "01", "81"}} \cup {"00000100", "00000001", "01000080", "ffffffff", "dddddddd", "03000001", "00000080"}
Init == \/ s = "" /\ v = "none"
        \/ s \in Words \cup UNION {{Name(n), SubSeq(Name(n), 9, Len(Name(n))), "0x" \o Name(n), Name(n) \o " ", SubSeq(Name(n), 1, Len(Name(n)) - 1), LowAll(Name(n))} : n \in TapTypes} /\ v = "stop"
        \/ s = "" /\ v \in Values
Write == v = "none" /\ Len(s) < MaxLen /\ \E c \in Chars : s' = s \o c /\ UNCHANGED v
Next == Write
Spec == Init /\ [][Next]_vars
IsValue == v \notin {"none", "stop"}
RightInverse == IsValue => Parse(ShowType(v)) = v
LeftInverse == LET n == Parse(s) IN ~IsValue /\ n # INVALID => Parse(ShowType(n)) = n /\ Len(n) = 8
Prefix == ~IsValue /\ Parse(s) # INVALID /\ s \notin DOMAIN NameTab /\ ~StartsWith(s, "0x") => Parse("0x" \o s) = Parse(s) /\ Parse("0" \o s) = (IF Parse("0x" \o s) = INVALID THEN INVALID ELSE Parse("0" \o s))
NeverTwo == IsValue => (v \in EcdsaTypes => v \in TapTypes)
Emit == PrintT("CASE " \o ToJson(IF IsValue THEN [ns |-> {v}, texts |-> {}] ELSE [ns |-> {}, texts |-> {s}]))
=============================================================================
