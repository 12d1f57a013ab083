-------------------------------- MODULE Desc --------------------------------
(* Updating inputs and outputs of a v0 PSBT from an output descriptor.         *)
(* A descriptor is known by what it determines:                                *)
(*  [spk, redeem, wscript, segwit, tap, bad, keys << <<pk, source>> >>,        *)
(*   internal, isrc, merkle, leaves << [hash, script, control, keys] >>]       *)
(* ("" where it has none; bad: it contains a key that cannot be derived).      *)
EXTENDS Sign0

LeafHashes(D) == {D.leaves[j].hash : j \in 1..Len(D.leaves)}
LeafKeys(D) == UNION {{D.leaves[j].keys[n][1] : n \in 1..Len(D.leaves[j].keys)} : j \in 1..Len(D.leaves)}
LeavesFor(D, x) == {D.leaves[j].hash : j \in {i \in 1..Len(D.leaves) : \E n \in 1..Len(D.leaves[i].keys) : D.leaves[i].keys[n][1] = x}}
SourceIn(D, x) == LET j == CHOOSE j \in 1..Len(D.leaves) : \E n \in 1..Len(D.leaves[j].keys) : D.leaves[j].keys[n][1] = x
                      n == CHOOSE n \in 1..Len(D.leaves[j].keys) : D.leaves[j].keys[n][1] = x
                  IN D.leaves[j].keys[n][2]
TapKeys(D) == LeafKeys(D) \cup {D.internal}

(* key origins as a function: x-only key -> [lhs, src] *)
TapSrc(v) == BFrom(v, 1 + 32 * NLeaves(v))
Origins(m) == [x \in KeysOf(m, "tapbip32") |-> LET v == (CHOOSE e \in m : e[1] = "tapbip32" /\ e[2] = x)[3] IN [lhs |-> LeavesOf(v), src |-> TapSrc(v)]]
(* what is listed for a key of the descriptor: its leaves besides those already there; the internal *)
(* key is listed anew; the origin already recorded for another key is kept                          *)
OriginsAfter(m, D) == LET O == Origins(m) IN
  [x \in DOMAIN O \cup TapKeys(D) |->
    IF x = D.internal THEN [lhs |-> LeavesFor(D, x), src |-> D.isrc]
    ELSE IF x \in DOMAIN O THEN [O[x] EXCEPT !.lhs = @ \cup LeavesFor(D, x)]
    ELSE [lhs |-> LeavesFor(D, x), src |-> SourceIn(D, x)]]
NoDups(m, D) == \A e \in m : (e[1] = "tapbip32" /\ e[2] \in TapKeys(D)) => NLeaves(e[3]) = Cardinality(LeavesOf(e[3]))

SetOpt(m, f, v) == IF v = "" THEN Drop(m, {f}) ELSE Put(m, f, v)
KeepOpt(m, f, v) == IF v = "" THEN m ELSE Put(m, f, v)
LeafEntries(D) == {<<"tapleaf", D.leaves[j].control, D.leaves[j].script \o "c0">> : j \in 1..Len(D.leaves)}
Bip32Entries(D) == {<<"bip32", D.keys[j][1], D.keys[j][2]>> : j \in 1..Len(D.keys)}
(* everything of the map but tapbip32 and taptree, which are compared by meaning *)
Plain(m, D, isin) ==
  LET b == Drop(m, {"tapbip32", "taptree"}) IN
  IF D.tap THEN LET t == Put(b, "tapinternal", D.internal) IN
    IF isin THEN LET u == SetOpt(t, "tapmerkle", D.merkle) ce == {l[2] : l \in LeafEntries(D)} IN {e \in u : ~(e[1] = "tapleaf" /\ e[2] \in ce)} \cup LeafEntries(D)
    ELSE t
  ELSE LET kk == {e[2] : e \in Bip32Entries(D)} IN
    KeepOpt(KeepOpt({e \in b : ~(e[1] = "bip32" /\ e[2] \in kk)} \cup Bip32Entries(D), "redeem", D.redeem), "wscript", D.wscript)
(* the tree an output is left with: that of the descriptor if it has one (by its root), else the old one *)
RootAfter(m, D, ROOT) == IF D.tap /\ Len(D.leaves) > 0 THEN D.merkle ELSE IF Has(m, "taptree") THEN ROOT[Val(m, "taptree")] ELSE ""
UpdatedOk(m, n, D, isin, ROOT) ==
  IF Drop(n, {"tapbip32", "taptree"}) # Plain(m, D, isin) THEN "fields are not those the descriptor determines: " \o
       ToString(Drop(n, {"tapbip32", "taptree"}) \ Plain(m, D, isin)) \o " instead of " \o ToString(Plain(m, D, isin) \ Drop(n, {"tapbip32", "taptree"}))
  ELSE IF Origins(n) # (IF D.tap THEN OriginsAfter(m, D) ELSE Origins(m)) THEN "taproot key origins are not those the descriptor determines"
  ELSE IF D.tap /\ ~NoDups(n, D) THEN "a leaf hash is listed twice for a key"
  ELSE IF isin THEN ""
  ELSE IF (IF Has(n, "taptree") THEN ROOT[Val(n, "taptree")] ELSE "") # RootAfter(m, D, ROOT) THEN "the tree is not that of the descriptor"
  ELSE ""

(* ------------------------------ when an update succeeds ------------------------------ *)
(* k = 0: no such index; t: the unsigned transaction; IDS: previous transaction -> txid *)
UtxoGood(p, k, t, D, TAB, IDS) ==
  LET m == p.i[k] IN
  /\ Has(m, "wutxo") \/ Has(m, "nwutxo")
  /\ (Has(m, "wutxo") /\ ~Has(m, "nwutxo")) => D.segwit
  /\ Has(m, "nwutxo") => /\ IDS[Val(m, "nwutxo")] = t.ins[k].txid
                         /\ VoutInt(t.ins[k].vout) < Len(TAB[Val(m, "nwutxo")])
                         /\ Has(m, "wutxo") => TAB[Val(m, "nwutxo")][VoutInt(t.ins[k].vout) + 1] = TxOutOf(Val(m, "wutxo"))
InputGoes(p, k, t, D, TAB, IDS) ==
  /\ k \in 1..Len(p.i) /\ k <= Len(t.ins) /\ ~D.bad
  /\ UtxoGood(p, k, t, D, TAB, IDS)
  /\ Funding(p.i[k], t.ins[k].vout, TAB).out.spk = D.spk
OutputGoes(p, k, t, D) == k \in 1..Len(p.o) /\ k <= Len(t.outs) /\ ~D.bad /\ t.outs[k].spk = D.spk
Goes(op, p, k, t, D, TAB, IDS) ==
  CASE op = "in" -> InputGoes(p, k, t, D, TAB, IDS)
    [] op = "out" -> OutputGoes(p, k, t, D)
    [] op = "uin" -> k \in 1..Len(p.i) /\ ~D.bad
    [] OTHER -> k \in 1..Len(p.o) /\ ~D.bad
==============================================================================
