------------------------------- MODULE MC_C09 -------------------------------
(* Signers sign any inputs in any order; the flags at the end depend only on *)
(* what was signed.                                                          *)
EXTENDS Sign, Json
CONSTANTS N, Types, Starts
VARIABLES types, b0, flags, signed, order
vars == <<types, b0, flags, signed, order>>
Init == types \in [1..N -> Types] /\ b0 \in Starts /\ flags = b0 /\ signed = {} /\ order = <<>>
T(k) == IF types[k] = "" THEN "01" ELSE SubSeq(types[k], 1, 2)
CanSign(k) == types[k] = "" \/ types[k] \in STDTYPES
RECURSIVE Fold(_, _)
Fold(S, b) == IF S = {} THEN b ELSE LET k == CHOOSE x \in S : TRUE IN Fold(S \ {k}, FlagStep(b, T(k)))
SignSet(S) == /\ flags' = Fold(S, flags)
              /\ signed' = signed \cup S
              /\ order' = Append(order, S)
              /\ UNCHANGED <<types, b0>>
Next == Len(order) < N /\ \E S \in SUBSET {k \in 1..N : CanSign(k) /\ k \notin signed} : SignSet(S)
Spec == Init /\ [][Next]_vars
(* BIP-370, read bit by bit *)
Bitwise == LET t == {T(k) : k \in signed} IN
  /\ BitSet(flags, INMOD) <=> (BitSet(b0, INMOD) /\ t \subseteq ACP)
  /\ BitSet(flags, OUTMOD) <=> (BitSet(b0, OUTMOD) /\ t \subseteq NONE)
  /\ BitSet(flags, SINGLE) <=> (BitSet(b0, SINGLE) \/ t \cap SGL # {})
  /\ flags \div 8 = b0 \div 8
OrderFree == flags = Fold(signed, b0)
Monotone == [][(BitSet(flags', INMOD) => BitSet(flags, INMOD)) /\ (BitSet(flags', OUTMOD) => BitSet(flags, OUTMOD)) /\ (BitSet(flags, SINGLE) => BitSet(flags', SINGLE))]_vars
RECURSIVE SeqS(_)
SeqS(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<k - 1>> \o SeqS(S \ {k})
Emit == IF Len(order) < N THEN TRUE ELSE
  PrintT("CASE " \o ToJson([types |-> types, flags |-> HexByte(b0),
     provs |-> [j \in 1..Len(order) |-> [t |-> IF j % 2 = 0 THEN "hmap" ELSE "bmap", ms |-> <<>>, ks |-> SeqS(order[j])]],
     clear |-> [k \in 1..N |-> IF T(k) = "00" THEN "01" ELSE T(k)]]))
=============================================================================
