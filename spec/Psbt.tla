-------------------------------- MODULE Psbt --------------------------------
(* The abstract state of a PSBT: a global map, a sequence of input maps and  *)
(* a sequence of output maps.  A map is a set of entries                     *)
(* <<field, keydata, value>>; keydata and value are in wire form (hex).      *)
EXTENDS Hex

RangeOf(s) == {s[i] : i \in 1..Len(s)}
MapOf(js) == RangeOf(js)                                    \* JSON array of triples -> map
Abs(d) == [g |-> MapOf(d.g), i |-> [k \in 1..Len(d.i) |-> MapOf(d.i[k])],
                             o |-> [k \in 1..Len(d.o) |-> MapOf(d.o[k])]]

Has(m, f) == \E e \in m : e[1] = f
Val(m, f) == (CHOOSE e \in m : e[1] = f)[3]
ValOr(m, f, d) == IF Has(m, f) THEN Val(m, f) ELSE d
Keys(m) == {<<e[1], e[2]>> : e \in m}
KeysOf(m, f) == {e[2] : e \in {x \in m : x[1] = f}}
Fields(m) == {e[1] : e \in m}
Only(m, F) == {e \in m : e[1] \in F}
Drop(m, F) == {e \in m : e[1] \notin F}
Put(m, f, v) == Drop(m, {f}) \cup {<<f, "", v>>}
PutKey(m, f, k, v) == {e \in m : ~(e[1] = f /\ e[2] = k)} \cup {<<f, k, v>>}

(* ------------------------------ lock time (BIP-370) ------------------------------ *)
HasTime(m) == Has(m, "mintime")
HasHeight(m) == Has(m, "minheight")
LOCKERR == "ERR"
(* One rule, stated once: the inputs that require a lock time must agree on a kind;   *)
(* height is preferred when every one of them allows it.                              *)
LockTimeOf(g, ins) ==
  LET req == {k \in 1..Len(ins) : HasTime(ins[k]) \/ HasHeight(ins[k])}
  IN IF req = {} THEN ValOr(g, "fallback", "00000000")
     ELSE IF \A k \in req : HasHeight(ins[k]) THEN MaxHex32({Val(ins[k], "minheight") : k \in req})
     ELSE IF \A k \in req : HasTime(ins[k]) THEN MaxHex32({Val(ins[k], "mintime") : k \in req})
     ELSE LOCKERR
LockTime(p) == LockTimeOf(p.g, p.i)
LockOk(p) == LockTime(p) # LOCKERR

(* ------------------------------ unsigned transaction ------------------------------ *)
SEQMAX == "ffffffff"
Tx(p) == [v |-> Val(p.g, "txver"), lt |-> LockTime(p),
          ins |-> [k \in 1..Len(p.i) |-> [txid |-> Val(p.i[k], "txid"), vout |-> Val(p.i[k], "vout"),
                                          seq |-> ValOr(p.i[k], "sequence", SEQMAX)]],
          outs |-> [k \in 1..Len(p.o) |-> [amt |-> Val(p.o[k], "amount"), spk |-> Val(p.o[k], "script")]]]
TxHex(t) ==
  t.v \o VI(Len(t.ins))
  \o Cat([k \in 1..Len(t.ins) |-> t.ins[k].txid \o t.ins[k].vout \o "00" \o t.ins[k].seq])
  \o VI(Len(t.outs))
  \o Cat([k \in 1..Len(t.outs) |-> t.outs[k].amt \o WithLen(t.outs[k].spk)])
  \o t.lt
ZeroSeq(t) == [t EXCEPT !.ins = [k \in 1..Len(t.ins) |-> [t.ins[k] EXCEPT !.seq = "00000000"]]]
(* What the unique identifier is computed from *)
IdTx(p) == ZeroSeq(Tx(p))
IdHex(p) == TxHex(IdTx(p))

(* ------------------------------ counts ------------------------------ *)
CountHex(n) == VI(n)
CountsOk(p) == Val(p.g, "incount") = CountHex(Len(p.i)) /\ Val(p.g, "outcount") = CountHex(Len(p.o))

(* ------------------------------ global flags ------------------------------ *)
INMOD == 1
OUTMOD == 2
SINGLE == 4
FlagByte(p) == ByteAt(Val(p.g, "mod"), 0)
BitSet(b, m) == (b \div m) % 2 = 1
SetBit(b, m) == IF BitSet(b, m) THEN b ELSE b + m
ClrBit(b, m) == IF BitSet(b, m) THEN b - m ELSE b

(* ------------------------------ scripts ------------------------------ *)
IsP2PKH(s) == Len(s) = 50 /\ StartsWith(s, "76a914") /\ EndsWith(s, "88ac")
IsP2SH(s) == Len(s) = 46 /\ StartsWith(s, "a914") /\ EndsWith(s, "87")
IsP2WPKH(s) == Len(s) = 44 /\ StartsWith(s, "0014")
IsP2WSH(s) == Len(s) = 68 /\ StartsWith(s, "0020")
IsP2TR(s) == Len(s) = 68 /\ StartsWith(s, "5120")
IsWitnessProgram(s) ==
  LET n == BLen(s) IN
  n >= 4 /\ n <= 42 /\ (LET op == ByteAt(s, 0) IN op = 0 \/ (op >= 81 /\ op <= 96)) /\ ByteAt(s, 1) = n - 2
SpkKind(s) == IF IsP2WPKH(s) THEN "wpkh" ELSE IF IsP2WSH(s) THEN "wsh" ELSE IF IsP2SH(s) THEN "sh"
              ELSE IF IsP2TR(s) THEN "tr" ELSE IF IsWitnessProgram(s) THEN "wit" ELSE "bare"

(* ------------------------------ spent outputs ------------------------------ *)
(* A witness UTXO value is amount(8) || scriptlen || script.  Non-witness UTXOs are  *)
(* decoded outside: outs[txhex] = sequence of [amt, spk] (see the oracle tables).    *)
VarIntSize(h, i) == LET b == ByteAt(h, i) IN IF b < 253 THEN 1 ELSE IF b = 253 THEN 3 ELSE IF b = 254 THEN 5 ELSE 9
TxOutOf(h) == [amt |-> BSub(h, 0, 8), spk |-> BFrom(h, 8 + VarIntSize(h, 8))]
VoutInt(h) == IF ByteAt(h, 3) = 0 /\ ByteAt(h, 2) = 0 THEN ByteAt(h, 1) * 256 + ByteAt(h, 0) ELSE 65536
(* TAB: oracle table from non-witness utxo hex to its outputs *)
Funding(m, vout, TAB) ==
  IF Has(m, "wutxo") THEN [st |-> "ok", out |-> TxOutOf(Val(m, "wutxo"))]
  ELSE IF Has(m, "nwutxo") THEN
    LET outs == TAB[Val(m, "nwutxo")] n == VoutInt(vout)
    IN IF n < Len(outs) THEN [st |-> "ok", out |-> outs[n + 1]] ELSE [st |-> "oob", out |-> <<>>]
  ELSE [st |-> "missing", out |-> <<>>]
=============================================================================
