------------------------------- MODULE MC_C26 -------------------------------
(* All schedules of a given length. *)
EXTENDS Session
CONSTANTS Setups, Moves, Closing, Reloads
(* configurations by name, since configuration files hold no records *)
I(kind, ty) == [kind |-> kind, ty |-> ty, seq |-> "fdffffff", lock |-> ""]
Setup(n) == CASE n = "multi" -> <<I("wshmulti", "")>>
              [] n = "two" -> <<I("wshmulti", "82000000"), I("shwpkh", "03000000")>>
              [] n = "nested" -> <<I("shwshmulti", "81000000"), I("wpkh", "")>>
              [] n = "legacy" -> <<I("shmulti", "02000000"), I("baremulti", "83000000")>>
Init == /\ cfg \in {[name |-> n, ins |-> Setup(n), fallback |-> ""] : n \in Setups}
        /\ phase = "shared" /\ ps = [a \in N |-> PsbtOf(cfg)] /\ made = {} /\ tx = <<>> /\ hist = <<>>
Next == IF Len(hist) < Moves THEN \/ \E a \in N : Sign(a) \/ (Reloads /\ Reload(a))
                                  \/ \E a, b \in N : Comb(a, b)
        ELSE \E a \in Closing : Finish(a)
Spec == Init /\ [][Next]_vars
(* finalization succeeds exactly if the gathered signatures satisfy every input *)
Gathered(a, k) == {s[2] : s \in {x \in SigsOf(ps[a]) : x[1] = k}}
FinishIff == phase = "done" => (tx # <<>>) = \E a \in Closing : \A k \in 1..Len(ps[a].i) : IsFinal(ps[a].i[k])
ReadyIff == \A a \in N : phase = "shared" => (CanFin(ps[a]) = \A k \in 1..Len(cfg.ins) : Cardinality(Gathered(a, k)) >= Needed(cfg.ins[k].kind))
Op(e) == IF e[1] = "sign" THEN <<"sign", e[2], [t |-> "xpriv", ms |-> <<<<e[3] - 1, 0>>>>, ks |-> <<>>]>> ELSE e
Emit == IF phase # "done" THEN TRUE ELSE
  PrintT("CASE " \o ToJson([sess |-> [fallback |-> "", ins |-> cfg.ins], n |-> Parties, exp |-> IF tx # <<>> THEN "ok" ELSE "err", ops |-> [j \in 1..Len(hist) |-> Op(hist[j])]]))
=============================================================================
