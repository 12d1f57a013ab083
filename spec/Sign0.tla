-------------------------------- MODULE Sign0 --------------------------------
(* The v0 signer (ECDSA and taproot), its checks, and the digests it offers.   *)
(* p: the PSBT; vs: the output index each input spends (from the unsigned      *)
(* transaction); nout: number of outputs.                                       *)
EXTENDS Sign

Utxo(p, vs, k, TAB) == Funding(p.i[k], vs[k], TAB)
Spent(p, vs, k, TAB) == Utxo(p, vs, k, TAB).st = "ok"
Kind0(p, vs, k, TAB) == KindOf(p.i[k], Utxo(p, vs, k, TAB).out.spk)

(* ------------------------------ taproot ------------------------------ *)
TAPTYPES == {"00000000", "01000000", "02000000", "03000000", "81000000", "82000000", "83000000"}
TapType(m) == ValOr(m, "sighash", "00000000")
TapByte(m) == SubSeq(TapType(m), 1, 2)
(* key origin value: number of leaf hashes, the hashes, fingerprint, path *)
NLeaves(v) == ByteAt(v, 0)
LeavesOf(v) == {BSub(v, 1 + 32 * (j - 1), 32) : j \in 1..NLeaves(v)}
TapFp(v) == BSub(v, 1 + 32 * NLeaves(v), 4)
(* taproot keys are asked for by their key source only *)
TapAvail(m, prov) == {e \in m : e[1] = "tapbip32" /\ TapFp(e[3]) \in prov.fps}
KeyPath(m, e) == Has(m, "tapinternal") /\ Val(m, "tapinternal") = e[2] /\ NLeaves(e[3]) = 0 /\ ~Has(m, "tapkeysig")
TodoLeaves(m, e) == {lh \in LeavesOf(e[3]) : (e[2] \o lh) \notin KeysOf(m, "tapscriptsig")}
TapWork(m, prov) == {e \in TapAvail(m, prov) : KeyPath(m, e) \/ TodoLeaves(m, e) # {}}
(* a digest exists: the outputs it commits to are known *)
TapDigestOk(p, vs, k, nout, TAB) ==
  LET t == TapByte(p.i[k]) IN
  /\ TapType(p.i[k]) \in TAPTYPES
  /\ t \notin ACP => \A j \in 1..Len(p.i) : Spent(p, vs, j, TAB)
  /\ t \in SGL => k <= nout
(* signatures to be added to input k: <<"key", xonly>> and <<"leaf", xonly, leaf hash>> *)
TapNew(m, prov) == {<<"key", e[2], "">> : e \in {x \in TapAvail(m, prov) : KeyPath(m, x)}}
  \cup UNION {{<<"leaf", e[2], lh>> : lh \in TodoLeaves(m, e)} : e \in TapAvail(m, prov)}

(* ------------------------------ an input ------------------------------ *)
(* [st |-> "err"] or [st |-> "ok", alg, keys] *)
Outcome(p, vs, k, nout, prov, TAB) ==
  IF ~Spent(p, vs, k, TAB) THEN [st |-> "err"]
  ELSE LET kind == Kind0(p, vs, k, TAB) m == p.i[k] IN
  CASE kind = "wit" -> [st |-> "err"]
    [] kind = "tr" -> IF TapWork(m, prov) # {} /\ ~TapDigestOk(p, vs, k, nout, TAB) THEN [st |-> "err"]
                      ELSE [st |-> "ok", alg |-> "schnorr", keys |-> {e[2] : e \in TapWork(m, prov)}]
    [] OTHER -> LET a == Avail(m, prov) IN
                IF DigestOf(m, Utxo(p, vs, k, TAB).out.spk) = "" THEN IF a # {} THEN [st |-> "err"] ELSE [st |-> "ok", alg |-> "ecdsa", keys |-> {}]
                ELSE [st |-> "ok", alg |-> "ecdsa", keys |-> a]

(* ------------------------------ the checks before signing ------------------------------ *)
(* HT: script -> [sh, wsh]: the output scripts paying to it; IDS: transaction -> txid *)
Rules(p, vs, ids, k, TAB, HT, IDS) ==
  LET m == p.i[k] u == Utxo(p, vs, k, TAB) kind == KindOf(m, u.out.spk) IN
  (IF Has(m, "wutxo") /\ (kind = "bare" \/ (kind = "sh" /\ Has(m, "redeem"))) THEN {"NonWitnessSig"} ELSE {})
  \cup (IF Has(m, "nwutxo") /\ IDS[Val(m, "nwutxo")] # ids[k] THEN {"NonWitnessUtxoTxidMismatch"} ELSE {})
  \cup (IF Has(m, "redeem") THEN IF u.st # "ok" THEN {"MissingTxOut"}
         ELSE IF u.out.spk # HT[Val(m, "redeem")].sh THEN {"RedeemScriptMismatch"} ELSE {} ELSE {})
  \cup (IF Has(m, "wscript") THEN IF u.st # "ok" THEN {"MissingTxOut"}
         ELSE IF Has(m, "redeem") THEN IF Val(m, "redeem") # HT[Val(m, "wscript")].wsh THEN {"WitnessScriptMismatchShWsh"} ELSE {}
         ELSE IF u.out.spk # HT[Val(m, "wscript")].wsh THEN {"WitnessScriptMismatchWsh"} ELSE {} ELSE {})
(* what signer_checks may answer: {"ok"} or the rules broken by the first offending input *)
Checks(p, vs, ids, TAB, HT, IDS) ==
  LET B == {k \in 1..Len(p.i) : Rules(p, vs, ids, k, TAB, HT, IDS) # {}} IN
  IF B = {} THEN {"ok"} ELSE Rules(p, vs, ids, CHOOSE k \in B : \A j \in B : k <= j, TAB, HT, IDS)
==============================================================================
