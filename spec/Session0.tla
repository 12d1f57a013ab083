------------------------------ MODULE Session0 ------------------------------
(* The life of a v0 PSBT among several parties.  Everybody has a copy; a party *)
(* signs its copy (ECDSA and taproot), sends it, combines what it received,    *)
(* finalizes the inputs that can be finalized, in any order and repeatedly.    *)
(* Inputs become final one by one, at different parties.                       *)
(* Party n holds the keys of master n; key j (from 1) descends from master     *)
(* ((j - 1) mod 3) + 1.                                                        *)
EXTENDS Sign0, Combine, Vals, Json
CONSTANTS Parties
VARIABLES cfg,    \* the inputs: kind, sighash type
          ps,     \* the PSBT of each party
          made,   \* signatures made so far: <<party, input, field, key data, value>>
          hist
vars == <<cfg, ps, made, hist>>
N == 1..Parties
Owner(j) == ((j - 1) % 3) + 1
FP(n) == LE32(n)
XK(j) == IF j <= 3 THEN SubSeq(PK(j), 3, 66) ELSE Cat([k \in 1..32 |-> HexByte(68)])
LH(n) == TXID(100 + n)
(* ECDSA: keys listed, signatures needed *)
KeysFor(kind) == CASE kind \in {"wshmulti", "shmulti"} -> {1, 2, 3} [] kind \in {"shwshmulti", "baremulti"} -> {1, 2} [] OTHER -> {1}
Needed(kind) == IF kind \in {"wshmulti", "shmulti", "shwshmulti"} THEN 2 ELSE 1
(* taproot: leaves, each with its keys and the number of signatures it needs; the internal key is key 1 *)
IsTr(kind) == kind \in {"trkey", "trleaf", "tr2leaf", "trmulti"}
LeavesFor(kind) == CASE kind = "trleaf" -> <<<<{2}, 1>>>> [] kind = "tr2leaf" -> <<<<{2}, 1>>, <<{3}, 1>>>> [] kind = "trmulti" -> <<<<{2, 3, 4}, 2>>, <<{2}, 1>>>> [] OTHER -> <<>>
TapKeysFor(kind) == UNION {LeavesFor(kind)[n][1] : n \in 1..Len(LeavesFor(kind))}
Base(kind) == CASE kind = "wpkh" -> SPK(1) [] kind = "wshmulti" -> "0020" \o TXID(2) [] kind = "baremulti" -> "51" [] IsTr(kind) -> "5120" \o TXID(3) [] OTHER -> "a914" \o SubSeq(TXID(1), 1, 40) \o "87"
Origin(j, S) == LET RECURSIVE F(_) F(n) == IF n = 0 THEN "" ELSE F(n - 1) \o (IF n \in S THEN LH(n) ELSE "") IN <<"tapbip32", XK(j), HexByte(Cardinality(S)) \o F(4) \o FP(Owner(j))>>
TapPart(c) == IF ~IsTr(c.kind) THEN {} ELSE
  {<<"tapinternal", "", XK(1)>>} \cup (IF c.key THEN {Origin(1, {})} ELSE {})
  \cup {Origin(j, {n \in 1..Len(LeavesFor(c.kind)) : j \in LeavesFor(c.kind)[n][1]}) : j \in TapKeysFor(c.kind)}
InOf(c) == {<<"wutxo", "", AMT(2) \o WithLen(Base(c.kind))>>}
  \cup (IF IsTr(c.kind) THEN {} ELSE {<<"bip32", PK(k), FP(Owner(k))>> : k \in KeysFor(c.kind)})
  \cup Opt("redeem", CASE c.kind = "shmulti" -> "5151" [] c.kind = "shwshmulti" -> "0020" \o TXID(4) [] OTHER -> "")
  \cup Opt("wscript", IF c.kind \in {"wshmulti", "shwshmulti"} THEN "5252" ELSE "")
  \cup Opt("sighash", c.ty) \cup TapPart(c) \cup {<<"unk", "aa", "01">>}
TX == "tx"
PsbtOf(c) == [g |-> {<<"unsignedtx", "", TX>>}, i |-> [k \in 1..Len(c.ins) |-> InOf(c.ins[k])], o |-> <<{<<"bip32", PK(3), FP(9)>>}>>]
NOTAB == [x \in {} |-> <<>>]
VSS == [k \in 1..Len(cfg.ins) |-> LE32(1)]
NOUT == 1
Start == PsbtOf(cfg)
Me(a) == [fps |-> {FP(a)}, pks |-> {}]
(* ---- signing ---- *)
(* a signature is a value that says what it commits to: key, type, digest, transaction *)
Gain(p, k, a) ==
  LET W == Outcome(p, VSS, k, NOUT, Me(a), NOTAB) m == p.i[k] IN
  IF W.st = "err" THEN {}
  ELSE IF W.alg = "ecdsa" THEN {<<"psig", pk, pk \o "/" \o TypeByte(m) \o "/" \o DigestOf(m, Utxo(p, VSS, k, NOTAB).out.spk) \o "/" \o Val(p.g, "unsignedtx")>> : pk \in W.keys}
  ELSE {<<IF x[1] = "key" THEN "tapkeysig" ELSE "tapscriptsig", IF x[1] = "key" THEN "" ELSE x[2] \o x[3],
          x[2] \o "/" \o TapByte(m) \o "/" \o (IF x[1] = "key" THEN "key" ELSE "leaf:" \o x[3]) \o "/" \o Val(p.g, "unsignedtx")>> : x \in TapNew(m, Me(a))}
PutAll(m, S) == {e \in m : \A x \in S : ~(x[1] = e[1] /\ x[2] = e[2])} \cup S
SIGS == {"psig", "tapkeysig", "tapscriptsig"}
(* ---- finalizing ---- *)
IsFin(m) == Has(m, "fsig") \/ Has(m, "fwit")
LeafSigs(m, n) == {j \in 1..4 : (XK(j) \o LH(n)) \in KeysOf(m, "tapscriptsig")}
Enough(c, m) == IF IsTr(c.kind)
  THEN Has(m, "tapkeysig") \/ \E n \in 1..Len(LeavesFor(c.kind)) : Has(m, "tapinternal") /\ Cardinality(LeafSigs(m, n)) >= LeavesFor(c.kind)[n][2]
  ELSE Cardinality(KeysOf(m, "psig")) >= Needed(c.kind) /\ Cardinality(KeysOf(m, "bip32")) >= Needed(c.kind)
KEPT == {"nwutxo", "wutxo", "prop", "unk"}
(* the final scripts hold the signatures used: here, all of them *)
FinIn(c, m) == IF ~Enough(c, m) THEN m
  ELSE Only(m, KEPT) \cup {<<IF c.kind \in {"shmulti", "baremulti"} THEN "fsig" ELSE "fwit", "", ToString({<<e[1], e[2], e[3]>> : e \in Only(m, SIGS)})>>}
FinAll(p) == [p EXCEPT !.i = [k \in 1..Len(p.i) |-> FinIn(cfg.ins[k], p.i[k])]]
AllFin(p) == \A k \in 1..Len(p.i) : IsFin(p.i[k])
(* ---- actions ---- *)
Log(e) == hist' = Append(hist, e)
Sign(a) == LET G == [k \in 1..Len(cfg.ins) |-> Gain(ps[a], k, a)] IN
  /\ ps' = [ps EXCEPT ![a].i = [k \in 1..Len(cfg.ins) |-> PutAll(@[k], G[k])]]
  /\ made' = made \cup UNION {{<<a, k, s[1], s[2], s[3]>> : s \in G[k]} : k \in 1..Len(cfg.ins)}
  /\ Log(<<"sign", a - 1, a>>) /\ UNCHANGED cfg
Comb(a, b) == /\ a # b /\ Accepts0(ps[a], ps[b]) /\ ps' = [ps EXCEPT ![a] = Merge(@, ps[b])]
              /\ Log(<<"comb", a - 1, b - 1, "">>) /\ UNCHANGED <<cfg, made>>
Fin(a) == /\ ps' = [ps EXCEPT ![a] = FinAll(@)] /\ Log(<<"fin", a - 1, "fin">>) /\ UNCHANGED <<cfg, made>>
Reload(a) == Log(<<"wire", a - 1, "">>) /\ UNCHANGED <<cfg, ps, made>>
(* ---- what must hold ---- *)
SigsOf(p) == UNION {{<<k, e[1], e[2], e[3]>> : e \in Only(p.i[k], SIGS)} : k \in 1..Len(p.i)}
(* whatever a party signed it still has, unless the input is final *)
NoLoss == \A m \in made : IsFin(ps[m[1]].i[m[2]]) \/ <<m[2], m[3], m[4], m[5]>> \in SigsOf(ps[m[1]])
(* nobody has what was never made *)
NoForgery == \A a \in N : SigsOf(ps[a]) \subseteq {<<m[2], m[3], m[4], m[5]>> : m \in made}
OneEach == \A a \in N : \A k \in 1..Len(cfg.ins) : \A s, t \in Only(ps[a].i[k], SIGS) : (s[1] = t[1] /\ s[2] = t[2]) => s = t
SameUnsigned == \A a \in N : Val(ps[a].g, "unsignedtx") = TX /\ ps[a].g = Start.g /\ ps[a].o = Start.o
Committed == \A m \in made : EndsWith(m[5], "/" \o TX)
Combinable == \A a, b \in N : Accepts0(ps[a], ps[b])
(* copies with the same signatures and nothing final are the same *)
Converge == \A a, b \in N : (SigsOf(ps[a]) = SigsOf(ps[b]) /\ \A k \in 1..Len(cfg.ins) : ~IsFin(ps[a].i[k]) /\ ~IsFin(ps[b].i[k])) => ps[a] = ps[b]
(* an input is final only if the signatures made for it suffice *)
Earned == \A a \in N : \A k \in 1..Len(cfg.ins) : IsFin(ps[a].i[k]) =>
  Enough(cfg.ins[k], Start.i[k] \cup {<<m[3], m[4], m[5]>> : m \in {x \in made : x[2] = k}})
(* what is spent stays known, and so do unknown pairs *)
StillKnown == \A a \in N : \A k \in 1..Len(cfg.ins) : Only(Start.i[k], KEPT) \subseteq ps[a].i[k]
(* once final, always final *)
FinalStays == [][\A a \in N : \A k \in 1..Len(cfg.ins) : IsFin(ps[a].i[k]) => IsFin(ps'[a].i[k])]_vars
(* combining never makes less final than either operand *)
FinalSpreads == \A a, b \in N : \A k \in 1..Len(cfg.ins) : IsFin(Merge(ps[a], ps[b]).i[k]) = (IsFin(ps[a].i[k]) \/ IsFin(ps[b].i[k]))
==============================================================================
