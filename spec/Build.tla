-------------------------------- MODULE Build --------------------------------
(* The creator, constructor and updater roles as a transition system.         *)
(* s = [role, p]; roles: "creator", "cM", "cI", "cO", "upd", "psbt", "dead".  *)
(* An operation is a sequence whose head is its name.  It answers             *)
(* [ok, role, p]; a refused operation leaves the PSBT as it was, and a        *)
(* refused operation of a role that cannot be copied ends it ("dead").        *)
EXTENDS Psbt
NewPsbt == [g |-> {<<"version", "", "02000000">>, <<"txver", "", "02000000">>, <<"incount", "", "00">>, <<"outcount", "", "00">>, <<"mod", "", "00">>},
            i |-> <<>>, o |-> <<>>]
Flags(p, b) == [p EXCEPT !.g = Put(@, "mod", HexByte(b))]
On(p, m) == Flags(p, SetBit(FlagByte(p), m))
Off(p, m) == Flags(p, ClrBit(FlagByte(p), m))
Is(p, m) == BitSet(FlagByte(p), m)
Done(r, p) == [ok |-> TRUE, role |-> r, p |-> p]
Refused(r, p) == [ok |-> FALSE, role |-> r, p |-> p]
AddIn(p, m) == [p EXCEPT !.i = Append(@, m), !.g = Put(@, "incount", CountHex(Len(p.i) + 1))]
AddOut(p, m) == [p EXCEPT !.o = Append(@, m), !.g = Put(@, "outcount", CountHex(Len(p.o) + 1))]
SetSeq(p, k, v) == [p EXCEPT !.i[k] = Put(@, "sequence", v)]
IfLock(p, r, bad) == IF LockOk(p) THEN Done(r, p) ELSE Refused(bad, p)
CTOR == {"cM", "cI", "cO"}

Enabled(s, n) ==
  \/ s.role = "creator" /\ n \in {"fallback", "single", "inmod", "outmod", "txver", "cM", "cI", "cO", "psbt"}
  \/ s.role \in CTOR /\ n \in {"nomorein", "nomoreout", "updater", "psbt"}
  \/ s.role \in {"cM", "cI"} /\ n = "input"
  \/ s.role \in {"cM", "cO"} /\ n = "output"
  \/ s.role = "psbt" /\ n \in {"newM", "newI", "newO", "newU"}
  \/ s.role = "upd" /\ n \in {"seq", "psbt"}

StepOp(s, op) ==
  LET n == op[1] p == s.p r == s.role IN
  CASE n = "fallback" -> Done(r, [p EXCEPT !.g = Put(@, "fallback", op[2])])
    [] n = "txver" -> Done(r, [p EXCEPT !.g = Put(@, "txver", op[2])])
    [] n = "single" -> Done(r, On(p, SINGLE))
    [] n = "inmod" -> Done(r, On(p, INMOD))
    [] n = "outmod" -> Done(r, On(p, OUTMOD))
    [] n = "cM" -> Done("cM", On(On(p, INMOD), OUTMOD))
    [] n = "cI" -> Done("cI", Off(On(p, INMOD), OUTMOD))
    [] n = "cO" -> Done("cO", Off(On(p, OUTMOD), INMOD))
    [] n = "input" -> Done(r, AddIn(p, MapOf(op[2])))
    [] n = "output" -> Done(r, AddOut(p, MapOf(op[2])))
    [] n = "nomorein" -> Done(r, Off(p, INMOD))
    [] n = "nomoreout" -> Done(r, Off(p, OUTMOD))
    [] n = "updater" -> LET q == Off(Off(p, INMOD), OUTMOD) IN IF LockOk(q) THEN Done("upd", q) ELSE Refused("dead", p)
    [] n = "psbt" -> IF r \in CTOR THEN IfLock(p, "psbt", "dead") ELSE Done("psbt", p)
    [] n = "newM" -> IF Is(p, INMOD) /\ Is(p, OUTMOD) THEN Done("cM", p) ELSE Refused(r, p)
    [] n = "newI" -> IF Is(p, INMOD) THEN Done("cI", p) ELSE Refused(r, p)
    [] n = "newO" -> IF Is(p, OUTMOD) THEN Done("cO", p) ELSE Refused(r, p)
    [] n = "newU" -> IfLock(p, "upd", r)
    [] n = "seq" -> IF op[2] < Len(p.i) THEN Done(r, SetSeq(p, op[2] + 1, op[3])) ELSE Refused(r, p)
==============================================================================
