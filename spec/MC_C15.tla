------------------------------- MODULE MC_C15 -------------------------------
(* Sequence numbers and lock times from construction to extraction.            *)
EXTENDS Session
CONSTANTS Kinds, Kinds2, Tys, Seqs, Locks, Fallbacks, Sets, Moves, MaxSets
Ins == {<<[kind |-> k, ty |-> t, seq |-> s, lock |-> l]>> : k \in Kinds, t \in Tys, s \in Seqs, l \in Locks}
Two == {<<[kind |-> k, ty |-> t, seq |-> s, lock |-> l], [kind |-> "wpkh", ty |-> "", seq |-> "", lock |-> l2]>> : k \in Kinds2, t \in Tys, s \in Seqs, l \in Locks, l2 \in Locks}
Init == /\ cfg \in {[ins |-> i, fallback |-> f] : i \in Ins \cup Two, f \in Fallbacks}
        /\ phase = "setup" /\ ps = [a \in N |-> PsbtOf(cfg)] /\ made = {} /\ tx = <<>> /\ hist = <<<<"build", 0>>>>
        /\ LockOk(PsbtOf(cfg))
NSets == Len(SelectSeq(hist, LAMBDA e : e[1] = "seq"))
NMoves == Len(SelectSeq(hist, LAMBDA e : e[1] \in {"sign", "comb", "wire"}))
Next == \/ NSets < MaxSets /\ \E k \in 1..Len(ps[1].i), s \in Sets : SetSeq(k, s)
        \/ Share
        \/ phase = "shared" /\ NMoves < Moves /\ (\E a \in N : Sign(a) \/ \E b \in N : Comb(a, b))
        \/ phase = "shared" /\ NMoves = Moves /\ Finish(1)
Spec == Init /\ [][Next]_vars
(* the transaction is what the inputs say once shared, and nothing changes it afterwards *)
OneTx == phase # "setup" => \A a, b \in N : Tx(ps[a]) = Tx(ps[b])
ExtractedIs == tx # <<>> => tx = Tx(ps[1])
SequenceDefault == \A k \in 1..Len(ps[1].i) : ~Has(ps[1].i[k], "sequence") => Tx(ps[1]).ins[k].seq = "ffffffff"
Op(e) == IF e[1] = "sign" THEN <<"sign", e[2], [t |-> "xpriv", ms |-> <<<<e[3] - 1, 0>>>>, ks |-> <<>>]>> ELSE e
(* extracted whether or not it is complete: the final scripts of an incomplete one are empty *)
Emit == IF phase # "done" THEN TRUE ELSE
  PrintT("CASE " \o ToJson([sess |-> cfg, n |-> Parties, ops |-> [j \in 1..(Len(hist) + 1) |-> IF j < Len(hist) THEN Op(hist[j]) ELSE IF j = Len(hist) THEN <<"force", 0>> ELSE <<"ext", 0>>]]))
=============================================================================
