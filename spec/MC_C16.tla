------------------------------- MODULE MC_C16 -------------------------------
(* When can a script be satisfied?  For script templates, every choice of     *)
(* available signatures, preimage, transaction version, sequence and lock     *)
(* time, the script interpreter is searched for a stack that satisfies the    *)
(* script; this must agree with the policy of the script.  Every situation is *)
(* emitted, to be replayed on the real finalizer.                             *)
EXTENDS Tmpl, Json
CONSTANTS Kinds, Vers, Seqs, Locks, Afters, Olders, Srcs, MaxStack
A == PK(1)  B == PK(2)  C == PK(3)
HAsh(k) == H(k)[4]
VERIFY(k) == PUSH(k) \o "ad"
OrHash(op, pol) == <<"63" \o VERIFY(A) \o "82012088" \o op \o "8767" \o VERIFY(B) \o PUSH(C) \o "ac68",
                     <<"thr", 1, <<<<"thr", 2, <<<<"pk", A>>, pol>>>>, <<"thr", 2, <<<<"pk", B>>, <<"pk", C>>>>>>>>>>, 3, TRUE>>
(* [script, policy, number of keys, preimage used] *)
Template(kind, af, ol) ==
  CASE kind \in {"wshpk", "shpk", "pk"} -> <<PUSH(A) \o "ac", <<"pk", A>>, 1, FALSE>>
    [] kind \in {"pkh", "wpkh", "shwpkh", "shpkh", "wshpkh"} -> <<"76a914" \o HAsh(A) \o "88ac", <<"pk", A>>, 1, FALSE>>
    [] kind \in {"wshmulti", "shmulti"} -> <<"52" \o PUSH(A) \o PUSH(B) \o PUSH(C) \o "53ae", <<"thr", 2, <<<<"pk", A>>, <<"pk", B>>, <<"pk", C>>>>>>, 3, FALSE>>
    [] kind = "baremulti" -> <<"51" \o PUSH(A) \o PUSH(B) \o "52ae", <<"thr", 1, <<<<"pk", A>>, <<"pk", B>>>>>>, 2, FALSE>>
    [] kind = "shwshmulti" -> <<"52" \o PUSH(A) \o PUSH(B) \o "52ae", <<"thr", 2, <<<<"pk", A>>, <<"pk", B>>>>>>, 2, FALSE>>
    [] kind \in {"wsholder", "sholder"} -> <<VERIFY(A) \o NumOf4(ol) \o "b2", <<"thr", 2, <<<<"pk", A>>, <<"older", ol>>>>>>, 1, FALSE>>
    [] kind \in {"wshafter", "shwshafter", "shafter"} -> <<VERIFY(A) \o NumOf4(af) \o "b1", <<"thr", 2, <<<<"pk", A>>, <<"after", af>>>>>>, 1, FALSE>>
    [] kind \in {"wshor", "shor"} -> <<PUSH(A) \o "ac736476a914" \o HAsh(B) \o "88ad" \o NumOf4(ol) \o "b268",
                           <<"thr", 1, <<<<"pk", A>>, <<"thr", 2, <<<<"pk", B>>, <<"older", ol>>>>>>>>>>, 2, FALSE>>
    [] kind = "wshthresh" -> <<PUSH(A) \o "ac7c" \o PUSH(B) \o "ac937c630067" \o NumOf4(af) \o "b1926893" \o "5287",
                           <<"thr", 2, <<<<"pk", A>>, <<"pk", B>>, <<"after", af>>>>>>, 2, FALSE>>
    [] kind = "wshthro" -> <<PUSH(A) \o "ac7c" \o PUSH(B) \o "ac937c630067" \o NumOf4(ol) \o "b2926893" \o "5287",
                           <<"thr", 2, <<<<"pk", A>>, <<"pk", B>>, <<"older", ol>>>>>>, 2, FALSE>>
    [] kind = "wshps" -> OrHash("a820" \o Hp(2), <<"sha256", Hp(2)>>)
    [] kind = "wshpr" -> OrHash("a614" \o Hp(3), <<"ripemd", Hp(3)>>)
    [] kind = "wshp1" -> OrHash("a914" \o Hp(4), <<"hash160", Hp(4)>>)
    [] kind = "wshp2" -> OrHash("aa20" \o Hp(5), <<"hash256", Hp(5)>>)
    [] kind = "wshsha" -> <<VERIFY(A) \o "82012088a820" \o Hp(2) \o "87", <<"thr", 2, <<<<"pk", A>>, <<"sha256", Hp(2)>>>>>>, 1, TRUE>>
    [] kind = "wshripemd" -> <<VERIFY(A) \o "82012088a614" \o Hp(3) \o "87", <<"thr", 2, <<<<"pk", A>>, <<"ripemd", Hp(3)>>>>>>, 1, TRUE>>
    [] kind = "wshh160" -> <<VERIFY(A) \o "82012088a914" \o Hp(4) \o "87", <<"thr", 2, <<<<"pk", A>>, <<"hash160", Hp(4)>>>>>>, 1, TRUE>>
    [] kind = "wshh256" -> <<PUSH(A) \o "ac7364" \o VERIFY(B) \o "82012088aa20" \o Hp(5) \o "8768",
                           <<"thr", 1, <<<<"pk", A>>, <<"thr", 2, <<<<"pk", B>>, <<"hash256", Hp(5)>>>>>>>>>>, 2, TRUE>>
    [] kind = "wshmall" -> <<VERIFY(A) \o "82012088a820" \o Hp(2) \o "876b82012088a820" \o H(BADS)[2] \o "876c9b",
                           <<"thr", 2, <<<<"pk", A>>, <<"sha256", Hp(2)>>>>>>, 1, TRUE>>
After_(kind) == kind \in {"wshafter", "shwshafter", "shafter", "wshthresh"}
Older_(kind) == kind \in {"wsholder", "sholder", "wshor", "shor", "wshthro"}
Ctxs(kind) == CtxsOf(After_(kind), Older_(kind), Vers, Seqs, Locks, Srcs, Afters, Olders)
VARIABLES kind, ctx, sigs, bad, pre, set
vars == <<kind, ctx, sigs, bad, pre, set>>
Tp_ == Template(kind, ctx.after, ctx.older)
(* the script and the transaction first, then what is available (TLC explores successors in parallel, but not initial states) *)
Init == kind \in Kinds /\ ctx \in Ctxs(kind) /\ sigs = {} /\ bad = {} /\ pre = "no" /\ set = FALSE
Next == /\ ~set /\ set' = TRUE /\ UNCHANGED <<kind, ctx>>
        /\ sigs' \in SUBSET (1..Template(kind, ctx.after, ctx.older)[3])
        /\ bad' \in {{}} \cup {{k} : k \in (1..Template(kind, ctx.after, ctx.older)[3]) \ sigs'}
        /\ pre' \in (IF Template(kind, ctx.after, ctx.older)[4] THEN {"no", "yes", "long"} ELSE {"no"})
Spec == Init /\ [][Next]_vars
X == XOf(ctx)
Univ == {"", "01"} \cup {Sg(k) : k \in sigs} \cup {BADS} \cup {PK(k) : k \in 1..Tp_[3]} \cup (CASE pre = "yes" -> {PRE} [] pre = "long" -> {LONG} [] OTHER -> {}) \cup (IF Tp_[4] THEN {OTH} ELSE {})
Algo == IF kind \in {"pk", "pkh", "baremulti", "shmulti", "shpk", "shpkh", "sholder", "shafter", "shor"} THEN "legacy" ELSE "v0"
T == [h |-> {IF e = LONG THEN HLong ELSE H(e) : e \in Univ}, sig |-> {<<Algo, Tp_[1], PK(k), Sg(k)>> : k \in sigs}, commit |-> {}]
Stacks == UNION {[1..n -> Univ] : n \in 0..MaxStack}
(* every satisfaction of these templates has at most this many elements *)
Bound == CASE kind \in {"wshmulti", "shmulti", "shwshmulti"} -> 3 [] kind \in {"wshor", "shor", "wshthro", "wshps", "wshpr", "wshp1", "wshp2"} -> 3 [] kind = "wshthresh" -> 3 [] kind = "wshmall" -> 3 [] kind = "wshh256" -> 3 [] OTHER -> 2
Can == LET tp == Tp_ u == Univ t == T x == X a == Algo os == Ops(tp[1])
       IN \E n \in 0..(IF Bound < MaxStack THEN Bound ELSE MaxStack) : \E st \in [1..n -> u] : RunsOps(os, tp[1], st, a, t, x)
Pol == Sat(Tp_[2], [have |-> {<<"pk", PK(k)>> : k \in sigs} \cup (IF pre = "yes" THEN {<<"sha256", Hp(2)>>, <<"ripemd", Hp(3)>>, <<"hash160", Hp(4)>>, <<"hash256", Hp(5)>>} ELSE {}), X |-> X])
Agree == set => Can = Pol
Emit == ~set \/ PrintT("CASE " \o ToJson([kind |-> kind, ver |-> ctx.ver, seq |-> ctx.seq, lock |-> ctx.lock, src |-> ctx.src, after |-> ctx.after, older |-> ctx.older,
                                  sigs |-> Nums(sigs), bad |-> Nums(bad), pre |-> pre]))
=============================================================================
