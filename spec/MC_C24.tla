------------------------------- MODULE MC_C24 -------------------------------
(* A v0 PSBT with one input and one output, updated with descriptors: every    *)
(* kind of descriptor, UTXO data and earlier content, in histories of up to N  *)
(* updates.  Keys, scripts and hashes are symbolic.                            *)
EXTENDS Desc, Vals, Json
CONSTANTS Kinds, Seconds, Utxos, Pres, OpNames, N
VARIABLES cfg, p, hist, lastok
vars == <<cfg, p, hist, lastok>>

Cls(k) == CASE k \in {"pk", "pkh", "bare"} -> "bare" [] k = "wpkh" -> "wpkh" [] k = "shwpkh" -> "shwpkh"
            [] k \in {"shpk", "shpkh", "shmulti", "shsorted", "shold"} -> "sh"
            [] k \in {"wshpk", "wshpkh", "wshmulti", "wshsorted", "wshold", "wshor"} -> "wsh"
            [] k \in {"shwshpk", "shwshmulti", "shwshsorted", "shwshor"} -> "shwsh" [] OTHER -> "tr"
NKeys(k) == CASE k \in {"bare", "wshmulti", "wshsorted", "shwshmulti", "shwshsorted", "tr2"} -> 3 [] k \in {"tr3", "tr7"} -> 4
              [] k \in {"shmulti", "shsorted", "wshor", "shwshor", "tr1", "trself", "trtwice"} -> 2 [] OTHER -> 1
LeafNos(k) == CASE k = "tr1" -> <<{2}>> [] k = "tr2" -> <<{2}, {3}>> [] k = "tr3" -> <<{2}, {2, 3}, {4}>> [] k = "trself" -> <<{1}, {2}>>
                [] k = "trtwice" -> <<{2}, {2}, {1, 2}>> [] k = "tr7" -> <<{2}, {2}, {3}, {3}, {4}>> [] OTHER -> <<>>
X(n, i) == TXID(20 * n + i)
Src(n, i) == LE32(1000 * n + i) \o LE32(i)
H20(n) == SubSeq(TXID(n), 1, 40)
Rscript(k, n) == CASE Cls(k) = "sh" -> "52" \o HexByte(n) [] Cls(k) = "shwpkh" -> "0014" \o H20(60 + n) [] Cls(k) = "shwsh" -> "0020" \o TXID(70 + n) [] OTHER -> ""
Wscript(k, n) == IF Cls(k) \in {"wsh", "shwsh"} THEN "53" \o HexByte(n) ELSE ""
Spk(k, n) == CASE Cls(k) = "bare" -> "51" \o HexByte(n) [] Cls(k) = "wpkh" -> "0014" \o H20(80 + n) [] Cls(k) = "wsh" -> "0020" \o TXID(90 + n)
               [] Cls(k) = "tr" -> "5120" \o TXID(100 + n) [] OTHER -> "a914" \o H20(110 + n) \o "87"
D(k, n) == [kind |-> k, bad |-> FALSE, tap |-> Cls(k) = "tr", segwit |-> Cls(k) \notin {"bare", "sh"}, spk |-> Spk(k, n), redeem |-> Rscript(k, n), wscript |-> Wscript(k, n),
  keys |-> [i \in 1..NKeys(k) |-> <<"02" \o X(n, i), Src(n, i)>>],
  internal |-> IF Cls(k) = "tr" THEN X(n, 1) ELSE "", isrc |-> Src(n, 1), merkle |-> IF LeafNos(k) = <<>> THEN "" ELSE TXID(120 + n),
  leaves |-> [j \in 1..Len(LeafNos(k)) |-> [hash |-> TXID(130 + 10 * n + j), script |-> "51" \o HexByte(j), control |-> "c0" \o X(n, 1) \o HexByte(j),
     keys |-> LET q == SetToSeqOf(LeafNos(k)[j]) IN [m \in 1..Len(q) |-> <<X(n, q[m]), Src(n, q[m])>>]]]]
DS == [n \in 1..2 |-> D(IF n = 1 THEN cfg.k1 ELSE cfg.k2, n)]
HT == [s \in {"51", "52"} \cup UNION {{DS[n].redeem, DS[n].wscript} : n \in 1..2} |->
  LET R == {n \in 1..2 : DS[n].redeem = s} W == {n \in 1..2 : DS[n].wscript = s} IN
  [sh |-> IF R # {} THEN DS[CHOOSE n \in R : TRUE].spk ELSE "00", wsh |-> IF W # {} THEN (LET d == DS[CHOOSE n \in W : TRUE] IN IF d.redeem # "" THEN d.redeem ELSE d.spk) ELSE "00"]]
(* UTXO data of the input, which spends output 1 of transaction "a1" and pays to descriptor 1 *)
O1 == [amt |-> AMT(2), spk |-> DS[1].spk]
O0 == [amt |-> AMT(1), spk |-> "51"]
TAB == [x \in {"a1", "a2", "bad"} |-> IF x = "a2" THEN <<O1, O0>> ELSE <<O0, O1>>]
WO(o) == o.amt \o WithLen(o.spk)
UtxoOf(u) ==
  (IF u \in {"nw", "oob", "both", "amount", "script", "oobboth"} THEN {<<"nwutxo", "", "a1">>} ELSE IF u = "swap" THEN {<<"nwutxo", "", "a2">>} ELSE IF u \in {"badid", "badboth"} THEN {<<"nwutxo", "", "bad">>} ELSE {})
  \cup (CASE u \in {"w", "both", "badboth", "oobboth", "swap"} -> {<<"wutxo", "", WO(O1)>>} [] u = "amount" -> {<<"wutxo", "", WO([O1 EXCEPT !.amt = AMT(3)])>>}
          [] u = "script" -> {<<"wutxo", "", WO([O1 EXCEPT !.spk = "51"])>>} [] OTHER -> {})
T == [ins |-> <<[txid |-> "id", vout |-> IF cfg.utxo \in {"oob", "oobboth"} THEN LE32(9) ELSE LE32(1)]>>, outs |-> <<[amt |-> AMT(5), spk |-> DS[1].spk]>>]
IDSF == [x \in {"a1", "a2", "bad"} |-> IF x = "bad" THEN "other" ELSE "id"]
(* earlier content *)
OldOrigins == {<<"tapbip32", X(9, 1), "01" \o TXID(200) \o Src(9, 1)>>}
  \cup (IF DS[1].tap THEN {<<"tapbip32", X(1, 1), "01" \o TXID(200) \o Src(9, 2)>>, <<"tapbip32", X(1, NKeys(cfg.k1)), "01" \o TXID(200) \o Src(9, 3)>>} ELSE {})
Old(isin) == {<<"bip32", "02" \o X(9, 1), Src(9, 1)>>, <<"bip32", "02" \o X(1, 1), Src(9, 2)>>, <<"tapinternal", "", X(9, 1)>>, <<"unk", "fa01", "05">>}
  \cup {e \in OldOrigins : e[2] # X(1, 1) \/ NKeys(cfg.k1) > 1 \/ e[3] = "01" \o TXID(200) \o Src(9, 2)}
  \cup (IF isin THEN {<<"tapmerkle", "", TXID(201)>>, <<"tapleaf", "c0" \o X(9, 1), "51c0">>} ELSE {<<"taptree", "", TXID(202)>>})
P0 == [g |-> {}, i |-> <<UtxoOf(cfg.utxo) \cup (IF cfg.pre = 0 THEN {} ELSE Old(TRUE))>>, o |-> <<IF cfg.pre = 0 THEN {} ELSE Old(FALSE)>>]
ROOT == [v \in {TXID(202)} \cup {DS[n].merkle : n \in 1..2} |-> v]

(* the update *)
OriginEntry(x, o) == LET q == SetToSeqOf(o.lhs) IN <<"tapbip32", x, HexByte(Len(q)) \o Cat(q) \o o.src>>
After(m, d, isin) ==
  LET O == IF d.tap THEN OriginsAfter(m, d) ELSE Origins(m) r == RootAfter(m, d, ROOT) IN
  Plain(m, d, isin) \cup {OriginEntry(x, O[x]) : x \in DOMAIN O} \cup (IF isin \/ r = "" THEN {} ELSE {<<"taptree", "", r>>})
Isin(op) == op \in {"in", "uin"}
Do(op, k, n) ==
  LET d == DS[n] g == Goes(op, p, k, T, d, TAB, IDSF) IN
  /\ hist' = Append(hist, <<op, k - 1, n - 1>>)
  /\ lastok' = g
  /\ p' = IF ~g THEN p ELSE IF Isin(op) THEN [p EXCEPT !.i[k] = After(@, d, TRUE)] ELSE [p EXCEPT !.o[k] = After(@, d, FALSE)]
  /\ UNCHANGED cfg
Init == /\ cfg \in [k1 : Kinds, k2 : Seconds, utxo : Utxos, pre : Pres] /\ p = P0 /\ hist = <<>> /\ lastok = FALSE
Next == Len(hist) < N /\ \E op \in OpNames, k \in {1, 2}, n \in {1, 2} : (k = 2 => op \in {"in", "out"} /\ n = 1 /\ N = 1) /\ Do(op, k, n)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
LOp == Last[1]
LD == DS[Last[3] + 1]
LM == IF Isin(LOp) THEN p.i[Last[2] + 1] ELSE p.o[Last[2] + 1]
Did == hist # <<>> /\ lastok
Idempotent == Did => /\ Goes(LOp, p, Last[2] + 1, T, LD, TAB, IDSF) /\ After(LM, LD, Isin(LOp)) = LM
Consistent == Did => UpdatedOk(LM, LM, LD, Isin(LOp), ROOT) = ""
(* an input updated from nothing can be signed by every key of the descriptor, and a signer finds nothing to object to *)
EveryOne == [fps |-> {SubSeq(Src(n, i), 1, 8) : n \in 1..2, i \in 1..4}, pks |-> {}]
Signable == (Did /\ Len(hist) = 1 /\ cfg.pre = 0 /\ LOp = "in") =>
  /\ Rules(p, <<T.ins[1].vout>>, <<"id">>, 1, TAB, HT, IDSF) = {} \/ (LD.tap = FALSE /\ ~LD.segwit /\ Has(p.i[1], "wutxo"))
  /\ IF LD.tap THEN {e[2] : e \in TapAvail(p.i[1], EveryOne)} = TapKeys(LD)
     ELSE DigestOf(p.i[1], LD.spk) # "" /\ Avail(p.i[1], EveryOne) = {LD.keys[j][1] : j \in 1..Len(LD.keys)}
(* each leaf of each key is listed, and its script is there *)
AllLeaves == (Did /\ LD.tap) => LET O == Origins(LM) IN
  /\ \A x \in TapKeys(LD) : LeavesFor(LD, x) \subseteq O[x].lhs
  /\ Isin(LOp) => \A j \in 1..Len(LD.leaves) : <<"tapleaf", LD.leaves[j].control, LD.leaves[j].script \o "c0">> \in p.i[1]
(* what the update does not concern is kept *)
Kept == Did => /\ (cfg.pre # 0 => <<"unk", "fa01", "05">> \in LM /\ <<"bip32", "02" \o X(9, 1), Src(9, 1)>> \in LM /\ X(9, 1) \in KeysOf(LM, "tapbip32"))
               /\ UtxoOf(cfg.utxo) \subseteq p.i[1]
(* nothing is written for a script that is not the one spent or paid *)
Right == (Did /\ LOp \in {"in", "out"}) => LD.spk = DS[1].spk
Emit == IF hist = <<>> \/ (N > 1 /\ Len(hist) < N) THEN TRUE ELSE
  PrintT("CASE " \o ToJson([ds |-> <<[kind |-> cfg.k1, keys |-> <<0, 4, 2, 3>>, form |-> <<1, 0>>], [kind |-> cfg.k2, keys |-> <<5, 1, 6, 7>>, form |-> <<2, 3>>]>>,
    ins |-> <<[own |-> 0, utxo |-> cfg.utxo, pre |-> cfg.pre]>>, outs |-> <<[own |-> 0, pre |-> cfg.pre]>>, ops |-> hist, odd |-> ""]))
=============================================================================
