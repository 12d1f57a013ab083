------------------------------- MODULE MC_C20 -------------------------------
(* The v0 signer checks as a scan over the inputs: every combination of script *)
(* kind, UTXO data, redeem and witness script, for one and two inputs.         *)
(* Hashes are abstract: HT says what each script hashes to.                    *)
EXTENDS Sign0, Vals, Json
CONSTANTS Kinds, Utxos, Reds, Wscs, N, SecondKinds
VARIABLES cfgs, at, res
vars == <<cfgs, at, res>>
KindNo == [bare |-> 1, sh |-> 2, wpkh |-> 3, wsh |-> 4, shwpkh |-> 5, shwsh |-> 6, tr |-> 7, wit |-> 8]
H20(n) == SubSeq(TXID(n), 1, 40)
Spk(kind) == LET n == KindNo[kind] IN CASE kind = "bare" -> "51" [] kind \in {"sh", "shwpkh", "shwsh"} -> "a914" \o H20(n) \o "87" [] kind = "wpkh" -> SPK(1)
               [] kind = "wsh" -> "0020" \o TXID(2) [] kind = "tr" -> "5120" \o TXID(3) [] OTHER -> "5220" \o TXID(3)
OkRed(kind) == CASE kind = "sh" -> "5151" [] kind = "shwpkh" -> SPK(2) [] kind = "shwsh" -> "0020" \o TXID(4) [] OTHER -> ""
OkWsc(kind) == IF kind = "wsh" THEN "5252" ELSE IF kind = "shwsh" THEN "5353" ELSE ""
Red(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "51" ELSE OkRed(kind)
Wsc(kind, r) == IF r = "no" THEN "" ELSE IF r = "odd" THEN "52" ELSE OkWsc(kind)
Scripts == {"51", "52", "5151", SPK(2), "0020" \o TXID(4), "5252", "5353"}
HT == [s \in Scripts |->
  [sh |-> CASE s = "5151" -> Spk("sh") [] s = SPK(2) -> Spk("shwpkh") [] s = "0020" \o TXID(4) -> Spk("shwsh") [] OTHER -> "a914" \o H20(90) \o "87",
   wsh |-> CASE s = "5252" -> Spk("wsh") [] s = "5353" -> OkRed("shwsh") [] OTHER -> "0020" \o TXID(91)]]
Cfg == [kind : Kinds, utxo : Utxos, redeem : Reds, wscript : Wscs]
Nw(c) == c.kind \o (IF c.utxo = "badid" THEN "!" ELSE "")      \* stands for the previous transaction
NWS == Kinds \cup {k \o "!" : k \in Kinds}
TAB == [x \in NWS |-> LET k == CHOOSE y \in Kinds : x \in {y, y \o "!"} IN <<[amt |-> AMT(1), spk |-> "00"], [amt |-> AMT(2), spk |-> Spk(k)]>>]
IDS == [x \in NWS |-> IF x \in Kinds THEN TXID(KindNo[x]) ELSE TXID(99)]
In(c) == (IF c.utxo \in {"w", "both"} THEN {<<"wutxo", "", AMT(2) \o WithLen(Spk(c.kind))>>} ELSE {})
  \cup (IF c.utxo \in {"nw", "both", "oob", "badid"} THEN {<<"nwutxo", "", Nw(c)>>} ELSE {})
  \cup Opt("redeem", Red(c.kind, c.redeem)) \cup Opt("wscript", Wsc(c.kind, c.wscript))
P == [g |-> {}, i |-> [k \in 1..Len(cfgs) |-> In(cfgs[k])], o |-> <<>>]
VS == [k \in 1..Len(cfgs) |-> IF cfgs[k].utxo = "oob" THEN LE32(9) ELSE LE32(1)]
IDX == [k \in 1..Len(cfgs) |-> TXID(KindNo[cfgs[k].kind])]
Init == /\ cfgs \in [1..N -> Cfg] /\ (N = 2 => cfgs[2].kind \in SecondKinds /\ cfgs[1].kind \in SecondKinds)
        /\ at = 1 /\ res = {"ok"}
Look == /\ at <= Len(cfgs) /\ res = {"ok"}
        /\ LET R == Rules(P, VS, IDX, at, TAB, HT, IDS) IN
           IF R = {} THEN at' = at + 1 /\ UNCHANGED res ELSE res' = R /\ UNCHANGED at
        /\ UNCHANGED cfgs
Spec == Init /\ [][Look]_vars
Done == at > Len(cfgs) \/ res # {"ok"}
Scan == Done => res = Checks(P, VS, IDX, TAB, HT, IDS)
(* an input whose data is that of its kind passes *)
Right(c) == /\ c.utxo # "oob" /\ c.utxo # "badid" /\ (c.utxo = "none" => c.kind \in {"bare", "wpkh", "tr", "wit"} \/ (c.redeem = "no" /\ c.wscript = "no"))
            /\ c.redeem # "odd" /\ c.wscript # "odd" /\ (c.kind \in {"bare", "sh"} => c.utxo \notin {"w", "both"})
            /\ (c.kind = "shwsh" /\ c.wscript = "ok" => c.redeem = "ok")
Complete == (Done /\ \A k \in 1..Len(cfgs) : Right(cfgs[k])) => res = {"ok"}
(* if all is well, whatever script is signed for is the one the spent output commits to, and   *)
(* a legacy digest, which commits to no amount, is not made from a bare claim about the amount *)
Sound == (Done /\ res = {"ok"}) => \A k \in 1..Len(cfgs) :
  LET m == P.i[k] u == Utxo(P, VS, k, TAB) IN
  (u.st = "ok") =>
    /\ Has(m, "redeem") => HT[Val(m, "redeem")].sh = u.out.spk
    /\ Has(m, "wscript") => HT[Val(m, "wscript")].wsh \in {u.out.spk, ValOr(m, "redeem", "")}
    /\ (DigestOf(m, u.out.spk) # "" /\ SubSeq(DigestOf(m, u.out.spk), 1, 6) = "legacy") => ~Has(m, "wutxo")
    /\ Has(m, "nwutxo") => IDS[Val(m, "nwutxo")] = IDX[k]
Emit == IF ~Done THEN TRUE ELSE
  PrintT("CASE " \o ToJson([mk |-> [k \in 1..Len(cfgs) |-> [kind |-> cfgs[k].kind, utxo |-> cfgs[k].utxo, redeem |-> cfgs[k].redeem, wscript |-> cfgs[k].wscript, ty |-> "", list |-> 0]], odd |-> 0]))
=============================================================================
