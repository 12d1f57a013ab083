------------------------------- MODULE MC_C13 -------------------------------
(* Signing on abstract PSBTs: every combination of script kind, UTXO data,   *)
(* scripts, sighash type, listed keys and provider; two signers in sequence. *)
(* A signature is the abstract value <<key, digest, type>>.                  *)
EXTENDS Sign, Vals, Json
CONSTANTS Kinds, Utxos, Reds, Wscs, Tys, Lists, Provs, Two
VARIABLES cfg, p, sigs, errs, step, hist
vars == <<cfg, p, sigs, errs, step, hist>>
H20(n) == SubSeq(TXID(n), 1, 40)
Spk(kind) == CASE kind = "bare" -> "51" [] kind \in {"sh", "shwpkh", "shwsh"} -> "a914" \o H20(1) \o "87" [] kind = "wpkh" -> SPK(1)
               [] kind = "wsh" -> "0020" \o TXID(2) [] kind = "tr" -> "5120" \o TXID(3) [] OTHER -> "5220" \o TXID(3)
Red(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "51" ELSE CASE kind = "sh" -> "5151" [] kind = "shwpkh" -> SPK(2) [] kind = "shwsh" -> "0020" \o TXID(4) [] OTHER -> ""
Wsc(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "52" ELSE IF kind \in {"wsh", "shwsh"} THEN "5252" ELSE ""
UTX == "nw"          \* stands for a non-witness UTXO of two outputs
TAB(c) == [x \in {UTX} |-> <<[amt |-> AMT(1), spk |-> "00"], [amt |-> AMT(2), spk |-> Spk(c.kind)]>>]
FP(n) == LE32(n)
In(c) == InputOf(IF c.utxo = "oob" THEN 9 ELSE 1, {})
  \cup (IF c.utxo \in {"w", "both"} THEN {<<"wutxo", "", AMT(2) \o WithLen(Spk(c.kind))>>} ELSE {})
  \cup (IF c.utxo \in {"nw", "both", "oob"} THEN {<<"nwutxo", "", UTX>>} ELSE {})
  \cup Opt("redeem", Red(c.kind, c.redeem)) \cup Opt("wscript", Wsc(c.kind, c.wscript)) \cup Opt("sighash", c.ty)
  \cup {<<"bip32", PK(n), FP(n)>> : n \in 1..c.list}
Cfgs == [kind : Kinds, utxo : Utxos, redeem : Reds, wscript : Wscs, ty : Tys, list : Lists]
PR(P) == [fps |-> {}, pks |-> {PK(n) : n \in P}]
Init == /\ cfg \in Cfgs
        /\ p = [g |-> GlobalOf(1, 1, {<<"mod", "", "03">>}), i |-> <<In(cfg)>>, o |-> <<OutputOf(1, {})>>]
        /\ sigs = {} /\ errs = {} /\ step = 0 /\ hist = <<>>
Flagged(P) == [p EXCEPT !.g = Put(@, "mod", HexByte(FlagsAfter(p, PR(P), TAB(cfg))))]
SignBy(P) ==
  LET S == Signs(p, 1, PR(P), TAB(cfg)) IN
  /\ sigs' = sigs \cup {<<pk, Digest(p, 1, TAB(cfg)), TypeByte(p.i[1])>> : pk \in S}
  /\ errs' = IF Fails(p, 1, PR(P), TAB(cfg)) THEN errs \cup P ELSE errs
  /\ p' = IF Fails(p, 1, PR(P), TAB(cfg)) THEN p ELSE Flagged(P)
  /\ step' = step + 1 /\ hist' = Append(hist, P) /\ UNCHANGED cfg
Next == step < (IF Two THEN 2 ELSE 1) /\ \E P \in Provs : SignBy(P)
Spec == Init /\ [][Next]_vars
Everyone == UNION RangeOf(hist)
(* who signs depends on the keys only, never on the order or number of signers *)
OrderFree == {s[1] : s \in sigs} = Signs(p, 1, PR(Everyone), TAB(cfg))
OneDigest == \A a, b \in sigs : a[2] = b[2] /\ a[3] = b[3]
OnlyListed == \A s \in sigs : s[1] \in KeysOf(p.i[1], "bip32") /\ s[2] # ""
SignOrFail == sigs = {} \/ errs = {}
FlagsIff == (sigs = {}) => FlagByte(p) = 3
RECURSIVE SeqS(_)
SeqS(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<k - 1>> \o SeqS(S \ {k})
Emit == IF step = 0 \/ (Two /\ step < 2) THEN TRUE ELSE
  PrintT("CASE " \o ToJson([mk |-> <<cfg>>, provs |-> [j \in 1..step |-> [t |-> "bmap", ms |-> <<>>, ks |-> SeqS(hist[j])]]]))
=============================================================================
