-------------------------------- MODULE Final --------------------------------
(* Finalizing an input: what must be there, what must come out.               *)
EXTENDS Script, Sign
TOf(t) == [h |-> RangeOf(t.h), sig |-> RangeOf(t.sig), commit |-> RangeOf(t.commit)]
DigAlgo(d) == IF StartsWith(d, "legacy:") THEN "legacy" ELSE "v0"
DigCode(d) == IF StartsWith(d, "legacy:") THEN SubSeq(d, 8, Len(d)) ELSE SubSeq(d, 4, Len(d))
(* the digest that signatures of an ECDSA input must be for *)
DigOf(m, spk) ==
  LET kind == KindOf(m, spk) IN
  CASE kind = "bare" -> "legacy:" \o spk
    [] kind = "sh" -> IF Has(m, "redeem") THEN "legacy:" \o Val(m, "redeem") ELSE ""
    [] kind = "wpkh" -> "v0:" \o P2pkhCode(spk)
    [] kind = "shwpkh" -> "v0:" \o P2pkhCode(Val(m, "redeem"))
    [] OTHER -> IF Has(m, "wscript") THEN "v0:" \o Val(m, "wscript") ELSE ""
SigTypeOf(s) == SubSeq(s, Len(s) - 1, Len(s)) \o "000000"
Psigs(m) == Only(m, {"psig"})
(* every partial signature has the sighash type of its input *)
PsigTypesOk(m) == Psigs(m) = {} \/ (TypeOk(m) /\ \A e \in Psigs(m) : SigTypeOf(e[3]) = ValOr(m, "sighash", "01000000"))
PsigValid(m, spk, T, e) == LET d == DigOf(m, spk) IN d # "" /\ SigOk(T, DigAlgo(d), DigCode(d), e[2], e[3])
Leaf(s, lh) == (CHOOSE k \in 1..Len(s.leaves) : s.leaves[k][1] = lh)
LeafIs(s, lh) == \E k \in 1..Len(s.leaves) : s.leaves[k][1] = lh
(* key data of a taproot script signature: x-only key, leaf hash *)
TX(e) == SubSeq(e[2], 1, 64)
TL(e) == SubSeq(e[2], 65, 128)
TapSigValid(s, T, e) == SigOk(T, "leaf", s.leaves[Leaf(s, TL(e))][2], TX(e), e[3])
TapKeyValid(m, spk, T) == SigOk(T, "key", "", Program(spk), Val(m, "tapkeysig"))
(* what the input map offers towards satisfying the spend s *)
HaveOf(m, s, T) ==
  {<<"pk", e[2]>> : e \in {x \in Psigs(m) : PsigValid(m, s.spk, T, x) /\ x[2] \in KeysOf(m, "bip32")}}
  \cup {<<e[1], e[2]>> : e \in {x \in m : x[1] \in {"sha256", "hash256", "ripemd", "hash160"} /\ BLen(x[3]) = 32}}
  \cup (IF Has(m, "tapkeysig") /\ IsP2TR(s.spk) /\ TapKeyValid(m, s.spk, T) THEN {<<"tapkey", "">>} ELSE {})
  \cup {<<"leaf", TL(e) \o TX(e)>> : e \in {x \in Only(m, {"tapscriptsig"}) : /\ LeafIs(s, TL(x)) /\ TapSigValid(s, T, x)
                                               /\ \E t \in m : t[1] = "tapleaf" /\ t[3] = s.leaves[Leaf(s, TL(x))][2] \o "c0"}}
(* nothing in the input contradicts the spend, and no signature in it is wrong *)
Clean(m, out, s, T) ==
  /\ out.spk = s.spk /\ \A x \in {<<"redeem", s.redeem>>, <<"wscript", s.wscript>>} : IF x[2] = "" THEN ~Has(m, x[1]) ELSE ValOr(m, x[1], "") = x[2]
  /\ ~Has(m, "fsig") /\ ~Has(m, "fwit")
  /\ s.segwit \/ ~Has(m, "wutxo")
  /\ IF IsP2TR(s.spk)
     THEN /\ Has(m, "tapkeysig") => TapKeyValid(m, s.spk, T)
          /\ \A e \in Only(m, {"tapscriptsig"}) : LeafIs(s, TL(e)) => TapSigValid(s, T, e)
     ELSE \A e \in Psigs(m) : PsigValid(m, s.spk, T, e)
(* Versions with the top bit set: consensus reads them as large numbers, wallets as negative ones, and *)
(* a finalizer may refuse to rely on a relative lock time there.                                       *)
OddVersion(X) == ByteAt(X.ver, 3) >= 128
MustFinalize(m, out, s, T, X) == ~OddVersion(X) /\ Clean(m, out, s, T) /\ Sat(s.pol, [have |-> HaveOf(m, s, T), X |-> X])
KEEP2 == {"txid", "vout", "sequence", "mintime", "minheight", "nwutxo", "wutxo", "prop", "unk"}
KEEP0 == {"nwutxo", "wutxo", "prop", "unk"}
X2(p, k) == [ver |-> Val(p.g, "txver"), lock |-> LockTime(p), seq |-> ValOr(p.i[k], "sequence", SEQMAX)]
(* q is m finalized, keeping the fields K *)
FinalForm(m, q, K) == Drop(q, {"fsig", "fwit"}) = Only(m, K)
FinalSpends(q, spk, T, X) == Spends(spk, ValOr(q, "fsig", ""), WitOf(ValOr(q, "fwit", "00")), T, X)
(* ---- the v2 finalizer ---- *)
CanFinalize(p, TAB) == LockOk(p) /\ \A k \in 1..Len(p.i) : Fund(p, k, TAB).st = "ok" /\ PsigTypesOk(p.i[k])
=============================================================================
