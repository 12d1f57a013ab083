---------------------------- MODULE CombineModel ----------------------------
(* Three participants hold PSBTs for one transaction, each knowing its own    *)
(* part of one field; any participant may combine with any other, any number  *)
(* of times.  Design invariants: nobody ever holds a pair nobody contributed, *)
(* nothing known is lost, and without conflicts what is held depends only on  *)
(* whose data has been gathered.                                              *)
EXTENDS FieldVals, Combine, Vals, Json
CONSTANTS V, Replicas, Edits, MaxKnow   \* 2 or 0; number of participants; include pairs for different transactions; pairs known at first
VARIABLES org, cur, know
vars == <<org, cur, know>>
N == 1..Replicas
(* --- a common transaction --- *)
TXTPL == "02000000" \o "01" \o TXID(1) \o LE32(1) \o "00" \o "fdffffff" \o "01" \o AMT(1000) \o WithLen(SPK(1)) \o "00000000"
Base == IF V = 2 THEN [g |-> GlobalOf(1, 1, {}), i |-> <<InputOf(1, {})>>, o |-> <<OutputOf(1, {})>>]
        ELSE [g |-> {<<"unsignedtx", "", TXTPL>>}, i |-> <<{}>>, o |-> <<{}>>]
V2Only == {"sequence", "mintime", "minheight", "txver", "fallback", "mod", "ecdh", "dleq", "spinfo", "splabel"}
FieldsFor(m) == {f \in FieldsOf(m) : (V = 0 => f \notin V2Only) /\ f # "txver"}
(* entries replace required ones of the same single-valued field *)
With(m, S) == Drop(m, Fields(S) \cap {"mod"}) \cup S
Give(p, m, S) == CASE m = "g" -> [p EXCEPT !.g = With(@, S)] [] m = "i" -> [p EXCEPT !.i[1] = With(@, S)] [] m = "o" -> [p EXCEPT !.o[1] = With(@, S)]
OneField == UNION {{[k \in N |-> Give(Base, m, c[k])] : c \in [N -> {S \in Know(m, f) : Cardinality(S) <= MaxKnow}]} : <<m, f>> \in UNION {{<<m, f>> : f \in FieldsFor(m)} : m \in {"g", "i", "o"}}}
(* --- both kinds of UTXO data --- *)
Utxos == {S \in SUBSET (EntriesOf("i", "wutxo") \cup EntriesOf("i", "nwutxo")) : Cardinality(Keys(S)) = Cardinality(S)}
BothUtxos == {[k \in N |-> Give(Base, "i", c[k])] : c \in [N -> Utxos]}
(* --- different transactions --- *)
Edited2(p) == {[p EXCEPT !.g = Put(@, "txver", "01000000")], [p EXCEPT !.g = Put(@, "fallback", "01000000")],
  [p EXCEPT !.g = Put(@, "fallback", "00000000")],
  [p EXCEPT !.i[1] = Put(@, "txid", TXID(7))], [p EXCEPT !.i[1] = Put(@, "vout", "01000080")], [p EXCEPT !.i[1] = Put(@, "sequence", "00000000")],
  [p EXCEPT !.i[1] = Put(@, "minheight", "05000000")], [p EXCEPT !.i[1] = Put(@, "mintime", "0065cd1d")],
  [p EXCEPT !.i = Append(@, InputOf(2, {})), !.g = Put(@, "incount", "02")], [p EXCEPT !.o = Append(@, OutputOf(2, {})), !.g = Put(@, "outcount", "02")],
  [p EXCEPT !.i = <<>>, !.g = Put(@, "incount", "00")], [p EXCEPT !.o = <<>>, !.g = Put(@, "outcount", "00")],
  [p EXCEPT !.o[1] = Put(@, "amount", "e803000000000001")], [p EXCEPT !.o[1] = Put(@, "script", SPK(2))], [p EXCEPT !.o[1] = Put(@, "script", "")]}
Tx0(v, id, vo, sq, am, sp, lt) == v \o "01" \o id \o vo \o "00" \o sq \o "01" \o am \o WithLen(sp) \o lt
Edited0(p) == {[p EXCEPT !.g = Put(@, "unsignedtx", t)] : t \in {
  Tx0("01000000", TXID(1), LE32(1), "fdffffff", AMT(1000), SPK(1), "00000000"), Tx0("02000000", TXID(7), LE32(1), "fdffffff", AMT(1000), SPK(1), "00000000"),
  Tx0("02000000", TXID(1), LE32(2), "fdffffff", AMT(1000), SPK(1), "00000000"), Tx0("02000000", TXID(1), LE32(1), "feffffff", AMT(1000), SPK(1), "00000000"),
  Tx0("02000000", TXID(1), LE32(1), "fdffffff", AMT(1001), SPK(1), "00000000"), Tx0("02000000", TXID(1), LE32(1), "fdffffff", AMT(1000), SPK(2), "00000000"),
  Tx0("02000000", TXID(1), LE32(1), "fdffffff", AMT(1000), SPK(1), "01000000")}}
(* lock times stated in different ways, two inputs *)
Two == [Base EXCEPT !.i = Append(@, InputOf(2, {})), !.g = Put(@, "incount", "02")]
LockSets == {{}, {<<"minheight", "", "05000000">>}, {<<"minheight", "", "07000000">>}, {<<"mintime", "", "0065cd1d">>}, {<<"minheight", "", "05000000">>, <<"mintime", "", "0065cd1d">>}}
LockPsbts == {[Two EXCEPT !.i[1] = @ \cup a, !.i[2] = @ \cup b, !.g = @ \cup Opt("fallback", f)] : a \in LockSets, b \in LockSets, f \in {"", "05000000"}}
Same(x, y) == [k \in N |-> IF k = 1 THEN x ELSE y]
Different == IF ~Edits THEN {} ELSE IF V = 2 THEN UNION {{Same(x, Base), Same(Base, x)} : x \in Edited2(Base)} \cup UNION {{Same(x, y) : y \in {z \in LockPsbts : LockTime(x) = LockTime(z)}} : x \in LockPsbts}
             ELSE UNION {{Same(x, Base), Same(Base, x)} : x \in Edited0(Base)}
OK(x, y) == IF V = 2 THEN Accepts(x, y) ELSE Accepts0(x, y)
Init == /\ org \in OneField \cup BothUtxos \cup Different
        /\ cur = org /\ know = [k \in N |-> {k}]
Exchange(i, j) == /\ OK(cur[i], cur[j])
                 /\ cur' = [cur EXCEPT ![i] = Merge(cur[i], cur[j])]
                 /\ know' = [know EXCEPT ![i] = @ \cup know[j]]
                 /\ UNCHANGED org
Next == \E i, j \in N : Exchange(i, j)
Spec == Init /\ [][Next]_vars
(* ---- design properties ---- *)
Total(K) == {"g", "i", "o"}
Part(p, m) == CASE m = "g" -> p.g [] m = "i" -> UNION {{<<e[1], e[2], e[3], k>> : e \in p.i[k]} : k \in 1..Len(p.i)} [] m = "o" -> UNION {{<<e[1], e[2], e[3], k>> : e \in p.o[k]} : k \in 1..Len(p.o)}
PartKeys(P) == {<<e[1], e[2]>> : e \in P}
NothingInvented == \A k \in N : \A m \in {"g", "i", "o"} : Part(cur[k], m) \subseteq UNION {Part(org[j], m) : j \in know[k]}
NothingLost == \A k \in N : \A m \in {"g", "i", "o"} :
                 PartKeys(Part(cur[k], m)) \cup {<<"nwutxo", "">>} = UNION {PartKeys(Part(org[j], m)) : j \in know[k]} \cup {<<"nwutxo", "">>}
IdKept == V = 2 => \A k \in N : SameId(cur[k], org[k])
(* a non-witness UTXO is given up only for a witness UTXO *)
UtxoKept == \A k \in N : (\E j \in know[k] : Has(UNION {{e} : e \in UNION RangeOf(org[j].i)}, "nwutxo")) =>
              (Has(UNION RangeOf(cur[k].i), "nwutxo") \/ Has(UNION RangeOf(cur[k].i), "wutxo"))
Clean == \A i, j \in N : NoConflicts(org[i], org[j])
Determined == Clean => \A i, j \in N : know[i] = know[j] => ButFlags(cur[i]) = ButFlags(cur[j])
Relation == \A i, j \in N : OK(cur[i], cur[j]) => MergeRel(cur[i], cur[j], Merge(cur[i], cur[j]))
Symmetric == \A i, j \in N : OK(cur[i], cur[j]) = OK(cur[j], cur[i])
Emit == IF cur # org THEN TRUE ELSE PrintT("CASE " \o ToJson([v |-> V, ps |-> org]))
=============================================================================
