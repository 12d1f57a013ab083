--------------------------------- MODULE Fee ---------------------------------
(* Fees, transaction weight and fee rates.                                    *)
EXTENDS Psbt
(* fs: what each input spends ([st, out], see Funding); outs: amounts (hex)   *)
SumIn(fs) == BSum([k \in 1..Len(fs) |-> IF fs[k].st = "ok" THEN Nat8(fs[k].out.amt) ELSE <<>>])
SumOut(outs) == BSum([k \in 1..Len(outs) |-> Nat8(outs[k])])
If(c, S) == IF c THEN S ELSE {}
(* every error that applies *)
FeeErrs(fs, outs) ==
  LET I == SumIn(fs) O == SumOut(outs)
      bad == If(\E k \in 1..Len(fs) : fs[k].st = "missing", {"missing"}) \cup If(\E k \in 1..Len(fs) : fs[k].st = "oob", {"oob"})
      big == If(~FitsU64(I), {"inoverflow"}) \cup If(~FitsU64(O), {"outoverflow"})
  IN IF bad \cup big # {} THEN bad \cup big ELSE If(BCmp(I, O) < 0, {"negative"})
FeeOf(fs, outs) == BSubtract(SumIn(fs), SumOut(outs))
(* weight of a transaction t with sigs[k] = <<scriptSig, serialized witness>> *)
SignedHex(t, sigs) ==
  t.v \o VI(Len(t.ins))
  \o Cat([k \in 1..Len(t.ins) |-> t.ins[k].txid \o t.ins[k].vout \o WithLen(sigs[k][1]) \o t.ins[k].seq])
  \o VI(Len(t.outs)) \o Cat([k \in 1..Len(t.outs) |-> t.outs[k].amt \o WithLen(t.outs[k].spk)]) \o t.lt
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Weight(t, sigs) ==
  LET base == BLen(SignedHex(t, sigs))
      seg == Len(t.ins) = 0 \/ \E k \in 1..Len(sigs) : sigs[k][2] # "00"
      wit == IF seg THEN 2 + Sum([k \in 1..Len(sigs) |-> BLen(sigs[k][2])]) ELSE 0
  IN 4 * base + wit
(* sat per 1000 weight units, rounded down *)
Rate(fee, w) == BDiv(BMul(fee, 1000), w)
DEFRATE == BOf(6250000)                                     \* 25,000 sat/vB
Capped(fee, w) == IF FitsU64(BMul(fee, 1000)) THEN Rate(fee, w) ELSE BDiv(U64MAX, w)
(* the fee rates an extractor may compute: exact; or capped if the product leaves 64 bits *)
Rates(fee, w) == {Rate(fee, w), Capped(fee, w)}
TooHigh(fee, w, max) == {BCmp(x, max) > 0 : x \in Rates(fee, w)}
FinalSigs(ms) == [k \in 1..Len(ms) |-> <<ValOr(ms[k], "fsig", ""), ValOr(ms[k], "fwit", "00")>>]
==============================================================================
