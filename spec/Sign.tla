-------------------------------- MODULE Sign --------------------------------
(* Signing a v2 PSBT (ECDSA inputs).                                         *)
(* TAB: non-witness UTXO hex -> its outputs.                                 *)
(* prov: what the key provider can answer:                                   *)
(*   [fps |-> fingerprints of its extended keys, pks |-> its public keys]    *)
EXTENDS Psbt

STDTYPES == {"01000000", "02000000", "03000000", "81000000", "82000000", "83000000"}
TypeByte(m) == SubSeq(ValOr(m, "sighash", "01000000"), 1, 2)
TypeOk(m) == ValOr(m, "sighash", "01000000") \in STDTYPES
Fund(p, k, TAB) == Funding(p.i[k], Val(p.i[k], "vout"), TAB)

(* script kind of the output spent by input map m with script s *)
ShKind(m) == IF ~Has(m, "redeem") THEN "sh" ELSE LET r == Val(m, "redeem") IN IF IsP2WPKH(r) THEN "shwpkh" ELSE IF IsP2WSH(r) THEN "shwsh" ELSE "sh"
KindOf(m, s) == LET b == SpkKind(s) IN IF b = "sh" THEN ShKind(m) ELSE b
EcdsaKinds == {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh"}
IsEcdsa(p, k, TAB) == LET f == Fund(p, k, TAB) IN f.st = "ok" /\ KindOf(p.i[k], f.out.spk) \in EcdsaKinds

(* Which digest must be signed: "legacy:<script code>" or "v0:<script code>"; "" if there is none *)
P2pkhCode(prog) == "76a914" \o SubSeq(prog, 5, 44) \o "88ac"
DigestOf(m, spk) ==
  LET kind == KindOf(m, spk) IN
  IF ~TypeOk(m) THEN ""
  ELSE CASE kind = "bare" -> "legacy:" \o spk
         [] kind = "sh" -> IF Has(m, "redeem") THEN "legacy:" \o Val(m, "redeem") ELSE ""
         [] kind = "wpkh" -> "v0:" \o P2pkhCode(spk)
         [] kind = "shwpkh" -> "v0:" \o P2pkhCode(Val(m, "redeem"))
         [] OTHER -> IF Has(m, "wscript") THEN "v0:" \o Val(m, "wscript") ELSE ""
Digest(p, k, TAB) == DigestOf(p.i[k], Fund(p, k, TAB).out.spk)

(* keys listed for input map m that the provider can answer for *)
Provides(prov, pk, ks) == SubSeq(ks, 1, 8) \in prov.fps \/ pk \in prov.pks
Avail(m, prov) == {e[2] : e \in {x \in m : x[1] = "bip32" /\ Provides(prov, x[2], x[3])}}
Signs(p, k, prov, TAB) == IF IsEcdsa(p, k, TAB) THEN (IF Digest(p, k, TAB) # "" THEN Avail(p.i[k], prov) ELSE {}) ELSE {}
Fails(p, k, prov, TAB) == IsEcdsa(p, k, TAB) /\ Digest(p, k, TAB) = "" /\ Avail(p.i[k], prov) # {}

(* effect of one signature of type t on the flags *)
ACP == {"81", "82", "83"}
NONE == {"02", "82"}
SGL == {"03", "83"}
FlagStep(b, t) ==
  LET b1 == IF t \in ACP THEN b ELSE ClrBit(b, INMOD)
      b2 == IF t \in NONE THEN b1 ELSE ClrBit(b1, OUTMOD)
  IN IF t \in SGL THEN SetBit(b2, SINGLE) ELSE b2
RECURSIVE FlagFold(_, _, _)
FlagFold(p, ks, b) == IF ks = {} THEN b ELSE LET k == CHOOSE x \in ks : TRUE IN FlagFold(p, ks \ {k}, FlagStep(b, TypeByte(p.i[k])))
FlagsAfter(p, prov, TAB) == FlagFold(p, {k \in 1..Len(p.i) : Signs(p, k, prov, TAB) # {}}, FlagByte(p))
=============================================================================
