------------------------------- MODULE MC_C08 -------------------------------
(* Every sequence of creator, constructor and updater operations up to a     *)
(* depth; every complete sequence is also a case for the implementation.     *)
EXTENDS Build, Vals, Json
CONSTANTS Depth
VARIABLES s, ops, added
vars == <<s, ops, added>>
IN1 == SetToSeqOf(InputOf(1, {}))
IN2 == SetToSeqOf(InputOf(2, {<<"minheight", "", "05000000">>}))
IN3 == SetToSeqOf(InputOf(3, {<<"mintime", "", "0065cd1d">>, <<"sequence", "", "fdffffff">>}))
OUT1 == SetToSeqOf(OutputOf(1, {}))
Ops(n) == CASE n = "fallback" -> {<<n, "07000000">>} [] n = "txver" -> {<<n, "01000000">>}
            [] n = "input" -> {<<n, IN1>>, <<n, IN2>>, <<n, IN3>>} [] n = "output" -> {<<n, OUT1>>}
            [] n = "seq" -> {<<n, 0, "00000000">>, <<n, 1, "05000000">>, <<n, 2000000000, "05000000">>}
            [] OTHER -> {<<n>>}
Names == {"fallback", "txver", "single", "inmod", "outmod", "cM", "cI", "cO", "input", "output", "nomorein", "nomoreout",
          "updater", "psbt", "newM", "newI", "newO", "newU", "seq"}
Init == s = [role |-> "creator", p |-> NewPsbt] /\ ops = <<>> /\ added = [i |-> <<>>, o |-> <<>>]
Next == /\ Len(ops) < Depth
        /\ \E n \in Names : Enabled(s, n) /\ \E op \in Ops(n) :
             LET t == StepOp(s, op) IN
             /\ s' = [role |-> t.role, p |-> t.p]
             /\ ops' = Append(ops, op)
             /\ added' = [i |-> IF n = "input" THEN Append(added.i, op[2]) ELSE added.i,
                          o |-> IF n = "output" THEN Append(added.o, op[2]) ELSE added.o]
Spec == Init /\ [][Next]_vars
(* counts, order and contents *)
Counts == CountsOk(s.p) /\ Len(s.p.i) = Len(added.i) /\ Len(s.p.o) = Len(added.o)
NoSeq(m) == Drop(m, {"sequence"})
Contents == /\ \A k \in 1..Len(s.p.i) : NoSeq(s.p.i[k]) = NoSeq(MapOf(added.i[k]))
            /\ \A k \in 1..Len(s.p.o) : s.p.o[k] = MapOf(added.o[k])
(* a map is only ever added while its kind is open *)
OpenForAdding == [][/\ Len(s'.p.i) > Len(s.p.i) => s.role \in {"cM", "cI"}
                    /\ Len(s'.p.o) > Len(s.p.o) => s.role \in {"cM", "cO"}]_vars
(* the updater follows construction only with a determined lock time *)
UpdaterLock == s.role = "upd" => LockOk(s.p)
Emit == IF Len(ops) < Depth /\ s.role # "dead" THEN TRUE ELSE PrintT("CASE " \o ToJson([start |-> [new |-> 1], ops |-> ops]))
=============================================================================
