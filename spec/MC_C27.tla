------------------------------- MODULE MC_C27 -------------------------------
(* All schedules of a given length, closed by finalizing and extracting.       *)
EXTENDS Session0
CONSTANTS Setups, Moves, Closing, Reloads
I(kind, ty) == [kind |-> kind, ty |-> ty, key |-> TRUE]
L(kind, ty) == [kind |-> kind, ty |-> ty, key |-> FALSE]   \* the internal key is not listed
Setup(n) == CASE n = "multi" -> <<I("wshmulti", "")>>
              [] n = "two" -> <<I("wshmulti", "82000000"), I("wpkh", "03000000")>>
              [] n = "nested" -> <<I("shwshmulti", "81000000"), L("tr2leaf", "")>>
              [] n = "legacy" -> <<I("shmulti", "02000000"), I("baremulti", "83000000")>>
              [] n = "tap" -> <<I("trleaf", ""), I("wpkh", "")>>
              [] n = "tapmulti" -> <<L("trmulti", "81000000")>>
              [] n = "mixed" -> <<I("trkey", "01000000"), I("wshmulti", ""), I("shmulti", "")>>
Init == /\ cfg \in {[name |-> n, ins |-> Setup(n)] : n \in Setups}
        /\ ps = [a \in N |-> PsbtOf(cfg)] /\ made = {} /\ hist = <<>>
Done == hist # <<>> /\ hist[Len(hist)][1] = "ext"
Close(a) == /\ ps' = [ps EXCEPT ![a] = FinAll(@)]
            /\ hist' = hist \o <<<<"fin", a - 1, "fin">>, <<"ext", a - 1>>>> /\ UNCHANGED <<cfg, made>>
Next == IF Done THEN FALSE
        ELSE IF Len(hist) < Moves THEN \/ \E a \in N : Sign(a) \/ Fin(a) \/ (Reloads /\ Reload(a))
                                       \/ \E a, b \in N : Comb(a, b)
        ELSE \E a \in Closing : Close(a)
Spec == Init /\ [][Next]_vars
Closer == hist[Len(hist)][2] + 1
(* extraction succeeds exactly if every input became final at the party that closes or had enough signatures there *)
Gathered(a, k) == Only(ps[a].i[k], SIGS)
ReadyIff == ~Done => \A a \in N : AllFin(FinAll(ps[a])) = \A k \in 1..Len(cfg.ins) : IsFin(ps[a].i[k]) \/ Enough(cfg.ins[k], Start.i[k] \cup Gathered(a, k))
Op(e) == IF e[1] = "sign" THEN <<"sign", e[2], [t |-> "xpriv", ms |-> <<<<e[3] - 1, 0>>>>, ks |-> <<>>]>> ELSE e
Emit == ~Done \/ PrintT("CASE " \o ToJson([sess |-> [ins |-> cfg.ins], n |-> Parties, fins |-> [k \in 1..Len(cfg.ins) |-> IsFin(ps[Closer].i[k])],
                                           ops |-> [j \in 1..Len(hist) |-> Op(hist[j])]]))
=============================================================================
