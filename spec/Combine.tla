------------------------------- MODULE Combine -------------------------------
(* Combining two PSBTs, as a function (first operand preferred) and as the   *)
(* relation that every correct combiner must satisfy.                        *)
EXTENDS Psbt
(* ---- key sources: fingerprint (4 bytes) followed by the path (4 bytes per step) ---- *)
PathOf(ks) == SubSeq(ks, 9, Len(ks))
SourceMerge(a, b) ==
  IF a = b THEN a
  ELSE LET pa == PathOf(a) pb == PathOf(b) IN
       IF Len(pa) > Len(pb) /\ EndsWith(pa, pb) THEN a
       ELSE IF Len(pb) > Len(pa) /\ EndsWith(pb, pa) THEN b
       ELSE "ERR"
Shared(x, y, f) == KeysOf(x, f) \cap KeysOf(y, f)
At2(m, f, k) == (CHOOSE e \in m : e[1] = f /\ e[2] = k)[3]
XpubsOk(gx, gy) == \A k \in Shared(gx, gy, "xpub") : SourceMerge(At2(gx, "xpub", k), At2(gy, "xpub", k)) # "ERR"
XpubsMerged(gx, gy) ==
  {e \in gx : e[1] = "xpub" /\ e[2] \notin KeysOf(gy, "xpub")} \cup {e \in gy : e[1] = "xpub" /\ e[2] \notin KeysOf(gx, "xpub")}
  \cup {<<"xpub", k, SourceMerge(At2(gx, "xpub", k), At2(gy, "xpub", k))>> : k \in Shared(gx, gy, "xpub")}
(* ---- maps ---- *)
MergeMap(x, y) == x \cup {e \in y : <<e[1], e[2]>> \notin Keys(x)}
GivesWay(x, y) == ~Has(x, "wutxo") /\ Has(y, "wutxo")
MergeIn(x, y) == IF GivesWay(x, y) THEN Drop(MergeMap(x, y), {"nwutxo"}) ELSE MergeMap(x, y)
MergeGlobal(gx, gy) == MergeMap(Drop(gx, {"xpub"}), Drop(gy, {"xpub"})) \cup XpubsMerged(gx, gy)
Merge(x, y) == [g |-> MergeGlobal(x.g, y.g), i |-> [k \in 1..Len(x.i) |-> MergeIn(x.i[k], y.i[k])], o |-> [k \in 1..Len(x.o) |-> MergeMap(x.o[k], y.o[k])]]
(* ---- which operands may be combined ---- *)
SameIn(a, b) == Val(a, "txid") = Val(b, "txid") /\ Val(a, "vout") = Val(b, "vout")
SameOut(a, b) == Val(a, "amount") = Val(b, "amount") /\ Val(a, "script") = Val(b, "script")
SameParts(x, y) == /\ Len(x.i) = Len(y.i) /\ Len(x.o) = Len(y.o) /\ Val(x.g, "txver") = Val(y.g, "txver")
                   /\ \A k \in 1..Len(x.i) : SameIn(x.i[k], y.i[k]) /\ \A j \in 1..Len(x.o) : SameOut(x.o[j], y.o[j])
SameId(x, y) == LockOk(x) = LockOk(y) /\ (LockOk(x) => IdTx(x) = IdTx(y))
SameTx(x, y) == SameParts(x, y) /\ SameId(x, y)
SameTx0(x, y) == Val(x.g, "unsignedtx") = Val(y.g, "unsignedtx")
(* If the operands state the same lock time in ways that together mean another one, refusing is right *)
Accepts(x, y) == SameTx(x, y) /\ XpubsOk(x.g, y.g) /\ SameId(x, Merge(x, y))
Accepts0(x, y) == SameTx0(x, y) /\ XpubsOk(x.g, y.g)
(* ---- the relation ---- *)
MapRel(x, y, q, loose) ==
  /\ q \subseteq x \cup y
  /\ Cardinality(Keys(q)) = Cardinality(q)
  /\ Keys(q) \cup loose = Keys(x) \cup Keys(y) \cup loose
LooseIn(x, y) == IF GivesWay(x, y) THEN {<<"nwutxo", "">>} ELSE {}
MergeRel(x, y, q) ==
  /\ Len(q.i) = Len(x.i) /\ Len(q.o) = Len(x.o)
  /\ MapRel(Drop(x.g, {"xpub"}), Drop(y.g, {"xpub"}), Drop(q.g, {"xpub"}), {})
  /\ Only(q.g, {"xpub"}) = XpubsMerged(x.g, y.g)
  /\ \A k \in 1..Len(x.i) : MapRel(x.i[k], y.i[k], q.i[k], LooseIn(x.i[k], y.i[k]))
  /\ \A k \in 1..Len(x.o) : MapRel(x.o[k], y.o[k], q.o[k], {})
(* ---- conflicts and comparison up to what may differ ---- *)
NoConflict(a, b) == \A e \in a : \A d \in b : (e[1] = d[1] /\ e[2] = d[2]) => (e[3] = d[3] \/ e[1] \in {"mod", "xpub"})
NoConflicts(x, y) == /\ NoConflict(x.g, y.g) /\ \A k \in 1..Len(x.i) : NoConflict(x.i[k], y.i[k]) /\ ~GivesWay(x.i[k], y.i[k]) /\ ~GivesWay(y.i[k], x.i[k])
                     /\ \A k \in 1..Len(x.o) : NoConflict(x.o[k], y.o[k])
ButFlags(p) == [p EXCEPT !.g = Drop(@, {"mod"})]
==============================================================================
