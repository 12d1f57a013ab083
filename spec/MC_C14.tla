------------------------------- MODULE MC_C14 -------------------------------
(* Key providers: a collection of extended keys <<master, depth>> or a map   *)
(* with some public keys, and a request.  A provider grows one key at a time.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Masters, Depths, KeyNos, MaxLen
Paths == {<<>>, <<1>>, <<1, 2>>}
VARIABLES t, ms, ks, req, n
vars == <<t, ms, ks, req, n>>
Fps == 0..8     \* 0..2 masters, 3..5 their children, 6 parent of the child of master b, 7 zero, 8 unrelated
Reqs == {<<"b", f, b, pa>> : f \in Fps, b \in {0, 1}, pa \in Paths} \cup {<<"p", k, b, <<>>>> : k \in KeyNos, b \in {0, 3}}
Init == t \in {"xpriv", "bset", "hset", "bmap", "hmap"} /\ ms = (IF t = "xpriv" THEN <<<<1, 0>>>> ELSE <<>>) /\ ks = <<>> /\ n = 0 /\ req \in Reqs
Sets == {"bset", "hset"}
Maps == {"bmap", "hmap"}
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<t, req>>
        /\ \/ t \in Sets /\ UNCHANGED ks /\ \E m \in Masters, d \in Depths : <<m, d>> \notin {ms[j] : j \in 1..Len(ms)} /\ ms' = Append(ms, <<m, d>>)
           \/ t \in Maps /\ UNCHANGED ms /\ \E k \in KeyNos : k \notin {ks[j] : j \in 1..Len(ks)} /\ ks' = Append(ks, k)
           \/ t = "xpriv" /\ UNCHANGED ks /\ \E m \in Masters, d \in Depths : ms' = <<<<m, d>>>>
Spec == Init /\ [][Next]_vars
(* fingerprint index of an extended key; a request for fingerprint 6 with b names master b itself *)
FpOf(x) == IF x[2] = 0 THEN x[1] ELSE x[1] + 3
Asked == IF req[2] = 6 THEN req[3] ELSE req[2]
Answer(M, K) == IF req[1] = "b" THEN (IF t \in Maps THEN "err" ELSE IF \E x \in M : FpOf(x) = Asked THEN "some" ELSE "none")
                ELSE IF t \notin Maps THEN "err" ELSE IF req[3] # 3 /\ req[2] \in K THEN "some" ELSE "none"
SetOf(s) == {s[j] : j \in 1..Len(s)}
Ans == Answer(SetOf(ms), SetOf(ks))
(* more keys never lose an answer, and unsupported stays unsupported *)
Monotone == [][LET a == Ans b == Answer(SetOf(ms'), SetOf(ks')) IN t # "xpriv" => (a = "some" => b = "some") /\ (a = "err" <=> b = "err")]_vars
Unsupported == (Ans = "err") <=> ((req[1] = "b") = (t \in Maps))
Emit == PrintT("CASE " \o ToJson([prov |-> [t |-> t, ms |-> ms, ks |-> ks], reqs |-> <<req>>]))
=============================================================================
