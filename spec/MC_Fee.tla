------------------------------- MODULE MC_Fee -------------------------------
(* Checked arithmetic over inputs and outputs, one amount at a time, against  *)
(* the exact fee; cases at the boundaries of the default and given limits.    *)
EXTENDS Fee, Vals, Json
CONSTANTS MaxIn, MaxOut, Kinds, Amts, OutAmtsC, Fins, Bounds   \* Bounds: also amounts around the default limit
VARIABLES ins, outs, fin, ver, todo, acc, st
vars == <<ins, outs, fin, ver, todo, acc, st>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* --- a transaction that pays v at output 1 and other amounts around it --- *)
ODD == "0100000000000000"
Prev(v) == "02000000" \o "01" \o TXID(9) \o "00000000" \o "00" \o "ffffffff" \o "03" \o ODD \o WithLen(SPK(7)) \o v \o WithLen(SPK(1)) \o ODD \o "00" \o "00000000"
PrevOuts(v) == <<[amt |-> ODD, spk |-> SPK(7)], [amt |-> v, spk |-> SPK(1)], [amt |-> ODD, spk |-> ""]>>
(* another value that must not count *)
Not(v) == IF v = ODD THEN "0200000000000000" ELSE ODD
Utxo(k, v) == CASE k = "w" -> {<<"wutxo", "", v \o WithLen(SPK(1))>>}
                [] k = "nw" \/ k = "oob" \/ k = "far" -> {<<"nwutxo", "", Prev(v)>>}
                [] k = "both" -> {<<"wutxo", "", v \o WithLen(SPK(1))>>, <<"nwutxo", "", Prev(Not(v))>>}
                [] k = "none" -> {}
Vout(k) == CASE k = "oob" -> "03000000" [] k = "far" -> "010000ff" [] OTHER -> "01000000"
FinOf(f) == CASE f = "both" -> {<<"fsig", "", "">>, <<"fwit", "", "020101020203">>} [] f = "sig" -> {<<"fsig", "", "5151">>} [] f = "wit" -> {<<"fwit", "", "0101aa">>}
              [] f = "legacy" -> {<<"fsig", "", "020304">>, <<"fwit", "", "00">>} [] f = "none" -> {}
F(k) == IF k > Len(fin) THEN "both" ELSE fin[k]
P == [g |-> GlobalOf(Len(ins), Len(outs), {}),
      i |-> [k \in 1..Len(ins) |-> {<<"txid", "", TXID(k)>>, <<"vout", "", Vout(ins[k][1])>>} \cup Utxo(ins[k][1], ins[k][2]) \cup FinOf(F(k))],
      o |-> [k \in 1..Len(outs) |-> {<<"amount", "", outs[k]>>, <<"script", "", SPK(k)>>}]]
T == Tx(P)
P0 == [g |-> {<<"unsignedtx", "", TxHex(T)>>}, i |-> [k \in 1..Len(P.i) |-> Drop(P.i[k], {"txid", "vout"})], o |-> [k \in 1..Len(outs) |-> {}]]
Fund1(c) == CASE c[1] \in {"w", "nw", "both"} -> [st |-> "ok", out |-> [amt |-> c[2], spk |-> SPK(1)]] [] c[1] = "none" -> [st |-> "missing", out |-> <<>>] [] OTHER -> [st |-> "oob", out |-> <<>>]
Funds == [k \in 1..Len(ins) |-> Fund1(ins[k])]
NW == [h \in UNION {{e[3] : e \in Only(P.i[k], {"nwutxo"})} : k \in 1..Len(ins)} |->
        PrevOuts(CHOOSE v \in Amts \cup {c[2] : c \in RangeOf(ins)} \cup {ODD, "0200000000000000"} : Prev(v) = h)]
W == Weight(T, FinalSigs(P.i))
(* --- boundaries --- *)
BoundAmts(o, f) ==
  LET p == [ins |-> <<[txid |-> TXID(1), vout |-> "01000000", seq |-> SEQMAX]>>, outs |-> <<[amt |-> o, spk |-> SPK(1)]>>, v |-> "02000000", lt |-> "00000000"]
      w == Weight(p, FinalSigs(<<FinOf(f)>>))
      \* the smallest fee whose rate exceeds the limit: fee * 1000 >= (limit + 1) * w
      n == BMul(BAdd(DEFRATE, <<1>>), w)
      f0 == BDiv(BAdd(n, BOf(999)), 1000)
  IN {Le8(BAdd(Nat8(o), x)) : x \in {BSubtract(f0, <<1>>), f0, BAdd(f0, <<1>>)}}
Init ==
  /\ ver = "02000000"
  /\ \/ /\ ins \in SeqsUpTo({"w"} \X Amts \cup Kinds \X {"e803000000000000"}, MaxIn) /\ outs \in SeqsUpTo(OutAmtsC, MaxOut) /\ fin = <<>>
     \/ /\ ins \in [1..2 -> {"w", "nw"} \X {"e803000000000000"}] /\ outs = <<"0000000000000000">> /\ fin \in [1..2 -> Fins]
     \/ /\ Bounds /\ outs \in [1..1 -> {"0000000000000000", "0000000000000100"}] /\ fin \in [1..1 -> {"both", "legacy"}]
        /\ ins \in [1..1 -> {"w", "nw"} \X BoundAmts(outs[1], fin[1])]
  /\ todo = [k \in 1..Len(ins) |-> <<"i", k>>] \o [k \in 1..Len(outs) |-> <<"o", k>>]
  /\ acc = <<<<>>, <<>>>> /\ st = "run"
(* one amount at a time, any error ends it *)
Take ==
  /\ st = "run" /\ todo # <<>>
  /\ LET h == Head(todo) IN
     IF h[1] = "i" THEN
       LET f == Fund1(ins[h[2]]) IN
       IF f.st # "ok" THEN st' = f.st /\ acc' = acc
       ELSE LET s == BAdd(acc[1], Nat8(f.out.amt)) IN IF FitsU64(s) THEN acc' = [acc EXCEPT ![1] = s] /\ st' = st ELSE st' = "inoverflow" /\ acc' = acc
     ELSE LET s == BAdd(acc[2], Nat8(outs[h[2]])) IN IF FitsU64(s) THEN acc' = [acc EXCEPT ![2] = s] /\ st' = st ELSE st' = "outoverflow" /\ acc' = acc
  /\ todo' = Tail(todo) /\ UNCHANGED <<ins, outs, fin, ver>>
End == /\ st = "run" /\ todo = <<>> /\ st' = (IF BCmp(acc[1], acc[2]) < 0 THEN "negative" ELSE "ok") /\ UNCHANGED <<ins, outs, fin, ver, todo, acc>>
Next == Take \/ End
Spec == Init /\ [][Next]_vars
(* stepwise checked arithmetic reports an error that applies, and else the exact fee *)
Exact == LET E == FeeErrs(Funds, outs) IN
  /\ st \notin {"run", "ok"} => st \in E
  /\ st = "ok" => E = {} /\ BSubtract(acc[1], acc[2]) = FeeOf(Funds, outs) /\ FitsU64(FeeOf(Funds, outs))
(* the spent output is what the maps say *)
Spent == \A k \in 1..Len(ins) : Funding(P.i[k], Val(P.i[k], "vout"), NW) = Fund1(ins[k])
(* rounding down never lets a rate through that exceeds the limit by a whole unit, and is monotone *)
RateOk == st = "ok" => LET fee == FeeOf(Funds, outs) q == Rate(fee, W) n == BMul(fee, 1000)
                       IN BCmp(BMul(q, W), n) <= 0 /\ BCmp(n, BMul(BAdd(q, <<1>>), W)) < 0
Start == todo = [k \in 1..Len(ins) |-> <<"i", k>>] \o [k \in 1..Len(outs) |-> <<"o", k>>] /\ st = "run"
Maxs == LET fee == FeeOf(Funds, outs) r == Rate(fee, W) IN
  IF FeeErrs(Funds, outs) # {} \/ ~FitsU64(BAdd(r, <<1>>)) THEN {"ffffffffffffffff", "0000000000000000"}
  ELSE {Le8(r), Le8(BAdd(r, <<1>>))} \cup (IF r = <<>> THEN {} ELSE {Le8(BSubtract(r, <<1>>))})
Emit == IF Start THEN PrintT("CASE " \o ToJson([p |-> P, p0 |-> P0, maxs |-> Maxs])) ELSE TRUE
=============================================================================
