------------------------------- MODULE MC_C11 -------------------------------
(* Two participants hold key sources for one extended key: every pair of      *)
(* short derivation paths and fingerprints, in v2 and v0.                      *)
EXTENDS FieldVals, Combine, Vals, Json
CONSTANTS MaxLen, Fps
VARIABLES v, a, b
vars == <<v, a, b>>
Steps == {"00000000", "01000080"}
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {""} ELSE Paths(n - 1) \cup {s \o p : s \in Steps, p \in Paths(n - 1)}
XK == CHOOSE e \in FV : e[2] = "xpub"
P(w, k) == LET x == {<<"xpub", XK[3], k>>} IN
           IF w = 2 THEN [g |-> GlobalOf(1, 1, x), i |-> <<InputOf(1, {})>>, o |-> <<OutputOf(1, {})>>]
           ELSE [g |-> {<<"unsignedtx", "", "02000000" \o "01" \o TXID(1) \o LE32(1) \o "00" \o "fdffffff" \o "01" \o AMT(1000) \o WithLen(SPK(1)) \o "00000000">>} \cup x, i |-> <<{}>>, o |-> <<{}>>]
Sources == {f \o p : f \in Fps, p \in Paths(MaxLen)}
Init == v \in {0, 2} /\ a \in Sources /\ b \in Sources
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == SourceMerge(a, b)
IsSuffix(s, t) == \E k \in 0..(Len(t) \div 8) : SubSeq(t, 8 * k + 1, Len(t)) = s
(* the rule, said the other way round *)
Rule == /\ (M = a /\ M # b) <=> (IsSuffix(PathOf(b), PathOf(a)) /\ PathOf(a) # PathOf(b))
        /\ (M = b /\ M # a) <=> (IsSuffix(PathOf(a), PathOf(b)) /\ PathOf(a) # PathOf(b))
        /\ (M = a /\ M = b) <=> a = b
        /\ M \in {a, b, "ERR"}
Symmetric == SourceMerge(b, a) = M
(* of three sources that agree pairwise the longest wins, in whatever order they meet *)
Assoc == \A c \in Sources : (M # "ERR" /\ SourceMerge(b, c) # "ERR" /\ SourceMerge(a, c) # "ERR") => SourceMerge(M, c) = SourceMerge(a, SourceMerge(b, c))
Emit == PrintT("CASE " \o ToJson([v |-> v, ps |-> <<P(v, a), P(v, b)>>]))
=============================================================================
