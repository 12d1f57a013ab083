------------------------------- MODULE Session -------------------------------
(* The life of a PSBT among several parties.  One party constructs it and sets *)
(* sequence numbers; copies are shared; every party signs its copy with its    *)
(* own key, sends it, combines what it received, in any order; in the end one  *)
(* finalizes and extracts.  Party n holds key n.                               *)
(* A signature is a value that says what it commits to: key, type, digest and  *)
(* the transaction.                                                            *)
EXTENDS Sign, Combine, Vals, Json
CONSTANTS Parties
VARIABLES cfg,    \* the inputs: kind, sighash type, sequence, lock requirement; fallback lock time
          phase,  \* "setup", "shared", "done"
          ps,     \* the PSBT of each party
          made,   \* signatures made so far: <<party, input, key, value>>
          tx,     \* transaction extracted, or <<>>
          hist
vars == <<cfg, phase, ps, made, tx, hist>>
N == 1..Parties
(* keys listed and signatures needed *)
KeysFor(kind) == CASE kind \in {"wshmulti", "shmulti"} -> {1, 2, 3} [] kind \in {"shwshmulti", "baremulti"} -> {1, 2} [] OTHER -> {1}
Needed(kind) == IF kind \in {"wshmulti", "shmulti", "shwshmulti"} THEN 2 ELSE 1
Base(kind) == CASE kind = "wpkh" -> SPK(1) [] kind = "wshmulti" -> "0020" \o TXID(2) [] kind = "baremulti" -> "51" [] OTHER -> "a914" \o SubSeq(TXID(1), 1, 40) \o "87"
InOf(c, n) == InputOf(n, {<<"wutxo", "", AMT(2) \o WithLen(Base(c.kind))>>})
  \cup {<<"bip32", PK(k), LE32(k)>> : k \in KeysFor(c.kind)}
  \cup Opt("redeem", CASE c.kind = "shmulti" -> "5151" [] c.kind = "shwshmulti" -> "0020" \o TXID(4) [] c.kind = "shwpkh" -> SPK(2) [] OTHER -> "")
  \cup Opt("wscript", IF c.kind \in {"wshmulti", "shwshmulti"} THEN "5252" ELSE "")
  \cup Opt("sighash", c.ty) \cup Opt("sequence", c.seq)
  \cup (IF c.lock \in {"h", "ht"} THEN {<<"minheight", "", LE32(100 + n)>>} ELSE {}) \cup (IF c.lock \in {"t", "ht"} THEN {<<"mintime", "", LE32(1600000000 + n)>>} ELSE {})
PsbtOf(c) == [g |-> GlobalOf(Len(c.ins), 1, Opt("fallback", c.fallback)), i |-> [k \in 1..Len(c.ins) |-> InOf(c.ins[k], k)], o |-> <<OutputOf(1, {})>>]
NOTAB == [x \in {} |-> <<>>]
Start == PsbtOf(cfg)
SetSeqOf(p, k, s) == [p EXCEPT !.i[k] = Put(@, "sequence", s)]
(* the transaction as everybody must see it: the PSBT shared *)
(* ---- signing ---- *)
Me(a) == [fps |-> {LE32(a)}, pks |-> {}]
SigValue(p, k, pk) == pk \o "/" \o TypeByte(p.i[k]) \o "/" \o Digest(p, k, NOTAB) \o "/" \o TxHex(Tx(p))
SignsAt(p, k, a) == Signs(p, k, Me(a), NOTAB)
SignPsbt(p, a) ==
  [g |-> IF \A k \in 1..Len(p.i) : SignsAt(p, k, a) = {} THEN p.g ELSE Put(p.g, "mod", HexByte(FlagsAfter(p, Me(a), NOTAB))),
   i |-> [k \in 1..Len(p.i) |-> LET S == SignsAt(p, k, a) IN {e \in p.i[k] : ~(e[1] = "psig" /\ e[2] \in S)} \cup {<<"psig", pk, SigValue(p, k, pk)>> : pk \in S}],
   o |-> p.o]
(* ---- finalizing ---- *)
Kept == {"txid", "vout", "sequence", "mintime", "minheight", "nwutxo", "wutxo", "prop", "unk"}
IsFinal(m) == Has(m, "fsig") /\ Has(m, "fwit")
ValidSigs(p, k) == {e[2] : e \in {x \in p.i[k] : x[1] = "psig" /\ x[3] = SigValue(p, k, x[2])}}
CanFin(p) == \A k \in 1..Len(p.i) : ~IsFinal(p.i[k]) /\ Cardinality(ValidSigs(p, k)) >= Needed(cfg.ins[k].kind)
FinIn(m) == Only(m, Kept) \cup {<<"fsig", "", "">>, <<"fwit", "", ToString({e[3] : e \in Only(m, {"psig"})})>>}
Final(p) == [p EXCEPT !.i = [k \in 1..Len(p.i) |-> FinIn(p.i[k])]]
(* ---- actions ---- *)
Log(e) == hist' = Append(hist, e)
SetSeq(k, s) == /\ phase = "setup" /\ k <= Len(ps[1].i)
                /\ ps' = [ps EXCEPT ![1] = SetSeqOf(@, k, s)] /\ Log(<<"seq", 0, k - 1, s>>) /\ UNCHANGED <<cfg, phase, made, tx>>
Share == /\ phase = "setup" /\ phase' = "shared" /\ ps' = [a \in N |-> ps[1]] /\ Log(<<"share", 0>>) /\ UNCHANGED <<cfg, made, tx>>
Sign(a) == /\ phase = "shared"
           /\ ps' = [ps EXCEPT ![a] = SignPsbt(@, a)]
           /\ made' = made \cup {<<a, k, pk, SigValue(ps[a], k, pk)>> : <<k, pk>> \in UNION {{<<k, pk>> : pk \in SignsAt(ps[a], k, a)} : k \in 1..Len(ps[a].i)}}
           /\ Log(<<"sign", a - 1, a>>) /\ UNCHANGED <<cfg, phase, tx>>
Comb(a, b) == /\ phase = "shared" /\ a # b /\ Accepts(ps[a], ps[b])
              /\ ps' = [ps EXCEPT ![a] = Merge(@, ps[b])]
              /\ Log(<<"comb", a - 1, b - 1, "">>) /\ UNCHANGED <<cfg, phase, made, tx>>
Reload(a) == /\ phase = "shared" /\ Log(<<"wire", a - 1, "">>) /\ UNCHANGED <<cfg, phase, ps, made, tx>>
(* finalize and extract at party a; nothing happens if it cannot *)
Finish(a) == /\ phase = "shared" /\ phase' = "done"
             /\ ps' = IF CanFin(ps[a]) THEN [ps EXCEPT ![a] = Final(@)] ELSE ps
             /\ tx' = IF CanFin(ps[a]) THEN Tx(Final(ps[a])) ELSE <<>>
             /\ hist' = hist \o <<<<"fin", a - 1>>, <<"wire", a - 1, "">>, <<"ext", a - 1>>>> /\ UNCHANGED <<cfg, made>>
(* ---- what must hold ---- *)
SigsOf(p) == UNION {{<<k, e[2], e[3]>> : e \in Only(p.i[k], {"psig"})} : k \in 1..Len(p.i)}
(* whatever a party signed it still has, until it finalizes; nobody has what was never made *)
NoLoss == phase # "done" => \A m \in made : <<m[2], m[3], m[4]>> \in SigsOf(ps[m[1]])
NoForgery == \A a \in N : SigsOf(ps[a]) \subseteq {<<m[2], m[3], m[4]>> : m \in made}
SameIdEverywhere == phase = "setup" \/ \A a, b \in N : SameId(ps[a], ps[b])
Combinable == phase = "shared" => \A a, b \in N : Accepts(ps[a], ps[b])
Converge == phase = "shared" => \A a, b \in N : SigsOf(ps[a]) = SigsOf(ps[b]) => ButFlags(ps[a]) = ButFlags(ps[b])
(* every signature commits to the transaction extracted, and there are enough of them *)
Committed == tx # <<>> => \A m \in made : EndsWith(m[4], "/" \o TxHex(tx))
Enough == tx # <<>> => \A k \in 1..Len(cfg.ins) : Cardinality({m[3] : m \in {x \in made : x[2] = k}}) >= Needed(cfg.ins[k].kind)
(* one signature per key and input, however often a party signs *)
OneEach == \A a \in N : \A s, t \in SigsOf(ps[a]) : s[1] = t[1] /\ s[2] = t[2] => s = t
==============================================================================
