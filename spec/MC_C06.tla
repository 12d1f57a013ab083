------------------------------- MODULE MC_C06 -------------------------------
(* Lock time determination: inputs are added one by one with any requirement *)
(* and the rule is compared with its declarative meaning.                    *)
EXTENDS Vals, Json
CONSTANTS MaxIn, Heights, Times, Fallbacks         \* "" is: absent
VARIABLES fb, ins
vars == <<fb, ins>>
Init == ins = <<>> /\ fb \in Fallbacks
Add(h, t) == ins' = Append(ins, Opt("minheight", h) \cup Opt("mintime", t)) /\ UNCHANGED fb
Next == Len(ins) < MaxIn /\ \E h \in Heights, t \in Times : Add(h, t)
P == [g |-> GlobalOf(Len(ins), 1, Opt("fallback", fb)),
      i |-> [k \in 1..Len(ins) |-> InputOf(k, ins[k])], o |-> <<OutputOf(1, {})>>]

IsTimeHex(h) == Le32(TIME0, U32(h))
Satisfies(L, m) == IF ~HasTime(m) /\ ~HasHeight(m) THEN TRUE
                   ELSE IF IsTimeHex(L) THEN HasTime(m) /\ Le32(U32(Val(m, "mintime")), U32(L))
                   ELSE HasHeight(m) /\ Le32(U32(Val(m, "minheight")), U32(L))
Mentioned == UNION {{e[3] : e \in ins[k]} : k \in 1..Len(ins)}
Required == \E k \in 1..Len(ins) : ins[k] # {}
(* Declarative reading: the least value that satisfies every input, heights preferred *)
GoodV == {h \in Mentioned : \A k \in 1..Len(ins) : Satisfies(h, ins[k])}
Declarative == LET L == LockTime(P) Good == GoodV IN
  IF ~Required THEN L = (IF fb = "" THEN "00000000" ELSE fb)
  ELSE IF Good = {} THEN L = LOCKERR
  ELSE /\ L \in Good
       /\ (\E h \in Good : ~IsTimeHex(h)) => ~IsTimeHex(L)
       /\ \A h \in Good : (IsTimeHex(h) = IsTimeHex(L)) => Le32(U32(L), U32(h))
ErrorIffConflict == (LockTime(P) = LOCKERR) <=> \E a, b \in 1..Len(ins) : HasTime(ins[a]) /\ ~HasHeight(ins[a]) /\ HasHeight(ins[b]) /\ ~HasTime(ins[b])
OrderFree == LET L == LockTime(P) IN \A a, b \in 1..Len(ins) :
  LockTimeOf(P.g, [k \in 1..Len(ins) |-> IF k = a THEN ins[b] ELSE IF k = b THEN ins[a] ELSE ins[k]]) = L
(* Adding an input never lowers a height lock time or a time lock time, and an error stays an error *)
Grows == Len(ins) > 0 =>
  LET L == LockTimeOf(P.g, SubSeq(ins, 1, Len(ins) - 1)) M == LockTime(P) 
      req == \E k \in 1..(Len(ins) - 1) : ins[k] # {}
  IN /\ L = LOCKERR => M = LOCKERR
     /\ (L # LOCKERR /\ M # LOCKERR /\ req /\ IsTimeHex(L) = IsTimeHex(M)) => Le32(U32(L), U32(M))
Spec == Init /\ [][Next]_vars
Emit == PrintT("CASE " \o ToJson([p |-> P]))
=============================================================================
