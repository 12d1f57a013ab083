------------------------------- MODULE MC_C21 -------------------------------
(* The v0 signer on abstract PSBTs: one input in every configuration, among    *)
(* another input that is or is not known, signed by signers one after another. *)
(* Keys 1, 2, 3 descend from masters 0, 1, 2. Leaves are hashes.               *)
EXTENDS Sign0, Vals, Json
CONSTANTS EKinds, EUtxos, Reds, Wscs, ETys, Lists,   \* ECDSA inputs
          TUtxos, TTys, Internals, Origins1, Origins2, \* taproot inputs
          Others, Places, Signers, Steps
VARIABLES cfg, p, sigs, errs, hist
vars == <<cfg, p, sigs, errs, hist>>
H20(n) == SubSeq(TXID(n), 1, 40)
Spk(kind) == CASE kind = "bare" -> "51" [] kind \in {"sh", "shwpkh", "shwsh"} -> "a914" \o H20(1) \o "87" [] kind = "wpkh" -> SPK(1)
               [] kind = "wsh" -> "0020" \o TXID(2) [] kind = "tr" -> "5120" \o TXID(3) [] OTHER -> "5220" \o TXID(3)
Red(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "51" ELSE CASE kind = "sh" -> "5151" [] kind = "shwpkh" -> SPK(2) [] kind = "shwsh" -> "0020" \o TXID(4) [] OTHER -> ""
Wsc(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "52" ELSE IF kind \in {"wsh", "shwsh"} THEN "5252" ELSE ""
UTX == "nw"
TAB == [x \in {UTX} |-> <<[amt |-> AMT(1), spk |-> "00"], [amt |-> AMT(2), spk |-> Spk(cfg.kind)]>>]
FP(n) == LE32(n)
XK(n) == SubSeq(PK(n), 3, 66)
Leaf(n) == Cat([k \in 1..32 |-> HexByte(n)])
Tap(n, o) == IF o = "none" THEN {} ELSE LET L == CASE o = "" -> <<>> [] o = "1" -> <<1>> [] o = "2" -> <<2>> [] OTHER -> <<1, 2>> IN
  {<<"tapbip32", XK(n), HexByte(Len(L)) \o Cat([k \in 1..Len(L) |-> Leaf(L[k])]) \o FP(n)>>}
In(c) == (IF c.utxo \in {"w", "both"} THEN {<<"wutxo", "", AMT(2) \o WithLen(Spk(c.kind))>>} ELSE {})
  \cup (IF c.utxo \in {"nw", "both", "oob"} THEN {<<"nwutxo", "", UTX>>} ELSE {})
  \cup Opt("redeem", Red(c.kind, c.redeem)) \cup Opt("wscript", Wsc(c.kind, c.wscript)) \cup Opt("sighash", c.ty)
  \cup {<<"bip32", PK(n), FP(n)>> : n \in 1..c.list}
  \cup (IF c.internal THEN {<<"tapinternal", "", XK(1)>>} ELSE {}) \cup Tap(1, c.o1) \cup Tap(2, c.o2)
Other(o) == {<<"bip32", PK(3), FP(3)>>} \cup (IF o THEN {<<"wutxo", "", AMT(3) \o WithLen(SPK(1))>>} ELSE {})
ECfgs == [kind : EKinds, utxo : EUtxos, redeem : Reds, wscript : Wscs, ty : ETys, list : Lists, internal : {FALSE}, o1 : {"none"}, o2 : {"none"}, other : {TRUE}, place : {1}]
TCfgs == [kind : {"tr"}, utxo : TUtxos, redeem : {"no"}, wscript : {"no"}, ty : TTys, list : {0}, internal : Internals, o1 : Origins1, o2 : Origins2, other : Others, place : Places]
Here == cfg.place
VS == [k \in 1..2 |-> IF k = Here /\ cfg.utxo = "oob" THEN LE32(9) ELSE LE32(1)]
NOUT == 1
Who(s) == CASE s = "k13" -> [ms |-> {}, ks |-> {1, 3}] [] s = "k2" -> [ms |-> {}, ks |-> {2}] [] s = "m1" -> [ms |-> {1}, ks |-> {}]
            [] s = "m2" -> [ms |-> {2}, ks |-> {}] [] s = "m123" -> [ms |-> {1, 2, 3}, ks |-> {}]
PR(S) == [fps |-> {FP(m) : m \in S.ms}, pks |-> {PK(n) : n \in S.ks}]
Init == /\ cfg \in ECfgs \cup TCfgs
        /\ p = [g |-> {}, i |-> [k \in 1..2 |-> IF k = cfg.place THEN In(cfg) ELSE Other(cfg.other)], o |-> <<{}>>]
        /\ sigs = {} /\ errs = {} /\ hist = <<>>
(* signatures the input gains: <<field, key, leaf, digest, type>> *)
Gain(k, S) ==
  LET W == Outcome(p, VS, k, NOUT, PR(S), TAB) m == p.i[k] IN
  IF W.st = "err" THEN {}
  ELSE IF W.alg = "ecdsa" THEN {<<"psig", pk, "", DigestOf(m, Utxo(p, VS, k, TAB).out.spk), TypeByte(m)>> : pk \in W.keys}
  ELSE {<<IF x[1] = "key" THEN "tapkeysig" ELSE "tapscriptsig", x[2], x[3], IF x[1] = "key" THEN "key" ELSE "leaf:" \o x[3], TapByte(m)>> : x \in TapNew(m, PR(S))}
PutAll(m, S) == {e \in m : \A x \in S : ~(x[1] = e[1] /\ x[2] = e[2])} \cup S
Entry(s) == <<s[1], IF s[1] = "tapkeysig" THEN "" ELSE s[2] \o s[3], s[5]>>
SignBy(S) ==
  LET G == [k \in 1..2 |-> Gain(k, S)] IN
  /\ sigs' = sigs \cup UNION {{<<k>> \o s : s \in G[k]} : k \in 1..2}
  /\ errs' = {k \in 1..2 : Outcome(p, VS, k, NOUT, PR(S), TAB).st = "err"}
  /\ p' = [p EXCEPT !.i = [k \in 1..2 |-> PutAll(@[k], {Entry(s) : s \in G[k]})]]
  /\ hist' = Append(hist, S) /\ UNCHANGED cfg
Next == Len(hist) < Steps /\ \E s \in Signers : (IF cfg.kind = "tr" THEN Who(s).ms # {} ELSE s # "m123") /\ SignBy(Who(s))
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
(* no signer signs twice with taproot; the same signer again changes nothing *)
Idempotent == hist = <<>> \/ \A k \in 1..2 : {<<k>> \o s : s \in Gain(k, Last)} \subseteq sigs
Settled == (hist # <<>> /\ Here \notin errs /\ cfg.kind = "tr") => TapWork(p.i[Here], PR(Last)) = {}
(* who signs depends on the keys only *)
Start == [p EXCEPT !.i = [k \in 1..2 |-> IF k = Here THEN In(cfg) ELSE Other(cfg.other)]]
Everyone == [ms |-> UNION {h.ms : h \in RangeOf(hist)}, ks |-> UNION {h.ks : h \in RangeOf(hist)}]
Pairs == {<<s[1], s[2], s[3], s[4]>> : s \in sigs}
Union0(k) == LET W == Outcome(Start, VS, k, NOUT, PR(Everyone), TAB) IN IF W.st = "err" THEN {} ELSE
   IF W.alg = "ecdsa" THEN {<<k, "psig", pk, "">> : pk \in W.keys}
   ELSE {<<k, IF x[1] = "key" THEN "tapkeysig" ELSE "tapscriptsig", x[2], x[3]>> : x \in TapNew(Start.i[k], PR(Everyone))}
OrderFree == Pairs = UNION {Union0(k) : k \in 1..2}
OnlyListed == \A s \in sigs : s[5] # "" /\ IF s[2] = "psig" THEN s[3] \in KeysOf(p.i[s[1]], "bip32") ELSE s[3] \in KeysOf(p.i[s[1]], "tapbip32")
(* a digest that commits to all outputs spent is made only if all are known; single needs its output *)
Known == \A s \in sigs : s[2] \in {"tapkeysig", "tapscriptsig"} => (s[6] \in ACP \/ \A k \in 1..2 : Spent(p, VS, k, TAB)) /\ (s[6] \in SGL => s[1] <= NOUT)
Kept == \A k \in 1..2 : Start.i[k] \subseteq p.i[k]
RECURSIVE SeqS(_)
SeqS(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<k>> \o SeqS(S \ {k})
Prov(S) == IF S.ms = {} THEN [t |-> "bmap", ms |-> <<>>, ks |-> SeqS({n - 1 : n \in S.ks})] ELSE [t |-> "bset", ms |-> [j \in 1..Cardinality(S.ms) |-> <<SeqS(S.ms)[j] - 1, 0>>], ks |-> <<>>]
MkOf(k) == IF k # Here THEN [kind |-> "wpkh", utxo |-> IF cfg.other THEN "w" ELSE "none", redeem |-> "no", wscript |-> "no", ty |-> "", list |-> 0, key3 |-> TRUE]
           ELSE [kind |-> cfg.kind, utxo |-> cfg.utxo, redeem |-> cfg.redeem, wscript |-> cfg.wscript, ty |-> cfg.ty, list |-> cfg.list, internal |-> cfg.internal, o1 |-> cfg.o1, o2 |-> cfg.o2, nout |-> NOUT]
Emit == IF Len(hist) < Steps THEN TRUE ELSE
  PrintT("CASE " \o ToJson([mk |-> <<MkOf(1), MkOf(2)>>, odd |-> 0, provs |-> [j \in 1..Steps |-> Prov(hist[j])]]))
=============================================================================
