------------------------------- MODULE MC_C16T ------------------------------
(* When can a taproot output be spent?  For trees of script templates, every  *)
(* choice of what the input knows (scripts of the leaves, signature of the    *)
(* output key, signatures per leaf and key, preimage) and of the transaction: *)
(* some witness is accepted by the script interpreter exactly if the policy   *)
(* is satisfied.  Every situation is emitted, to be replayed on the finalizer.*)
EXTENDS Tmpl, Json
CONSTANTS Kinds, Vers, Seqs, Locks, Afters, Olders, Srcs, Rich
X(n) == IF n <= 3 THEN SubSeq(PK(n), 3, 66) ELSE Cat([k \in 1..32 |-> HexByte(68)])
XH(n) == H(X(n))[4]
CHK(n) == PUSH(X(n)) \o "ac"
CHKV(n) == PUSH(X(n)) \o "ad"
LH(j) == TXID(100 + j)
L(j, n) == <<"leaf", LH(j) \o X(n)>>
Both(a, b) == <<"thr", 2, <<a, b>>>>
(* leaves: [script, policy, keys that can sign it, longest satisfaction, what else it takes] *)
Tree(kind, af, ol) ==
  CASE kind = "trkey" -> <<>>
    [] kind = "trleaf" -> <<<<CHK(1), L(1, 1), {1}, 1, {}>>>>
    [] kind = "tr2leaf" -> <<<<CHK(1), L(1, 1), {1}, 1, {}>>, <<CHK(2), L(2, 2), {2}, 1, {}>>>>
    [] kind = "trolder" -> <<<<CHKV(1) \o NumOf4(ol) \o "b2", Both(L(1, 1), <<"older", ol>>), {1}, 1, {}>>>>
    [] kind = "trafter" -> <<<<CHKV(1) \o NumOf4(af) \o "b1", Both(L(1, 1), <<"after", af>>), {1}, 1, {}>>, <<CHK(2), L(2, 2), {2}, 1, {}>>>>
    [] kind = "trmulti" -> <<<<CHK(1) \o PUSH(X(2)) \o "ba" \o PUSH(X(3)) \o "ba" \o "529c", <<"thr", 2, <<L(1, 1), L(1, 2), L(1, 3)>>>>, {1, 2, 3}, 3, {}>>,
                             <<CHK(1), L(2, 1), {1}, 1, {}>>>>
    [] kind = "trsha" -> <<<<CHKV(1) \o "82012088a820" \o Hp(2) \o "87", Both(L(1, 1), <<"sha256", Hp(2)>>), {1}, 2, {"pre"}>>,
                           <<"76a914" \o XH(2) \o "88ad" \o NumOf4(ol) \o "b2", Both(L(2, 2), <<"older", ol>>), {2}, 2, {"key"}>>>>
    [] kind = "trpkh" -> <<<<"76a914" \o XH(1) \o "88ac", L(1, 1), {1}, 2, {"key"}>>>>
    [] kind = "trdeep" -> <<<<CHK(1), L(1, 1), {1}, 1, {}>>,
                            <<CHKV(2) \o "82012088a914" \o Hp(4) \o "87", Both(L(2, 2), <<"hash160", Hp(4)>>), {2}, 2, {"pre"}>>,
                            <<CHK(2) \o PUSH(X(3)) \o "ba" \o "519c", <<"thr", 1, <<L(3, 2), L(3, 3)>>>>, {2, 3}, 2, {}>>,
                            <<"76a914" \o XH(4) \o "88ad" \o NumOf4(af) \o "b1", Both(L(4, 4), <<"after", af>>), {4}, 2, {"key"}>>>>
After_(kind) == kind \in {"trafter", "trdeep"}
Older_(kind) == kind \in {"trolder", "trsha"}
Pre_(kind) == kind \in {"trsha", "trdeep"}
(* signatures that can exist in scripts: <<leaf, key>> *)
Pairs(t) == UNION {{<<j, n>> : n \in t[j][3]} : j \in 1..Len(t)}
VARIABLES kind, ctx, lv, tk, ls, bad, pre, set
vars == <<kind, ctx, lv, tk, ls, bad, pre, set>>
Tr == Tree(kind, ctx.after, ctx.older)
(* the scripts known: all, none, all but one, only one *)
Known(n) == {1..n, {}} \cup {(1..n) \ {j} : j \in 1..n} \cup {{j} : j \in 1..n}
Init == kind \in Kinds /\ ctx \in CtxsOf(After_(kind), Older_(kind), Vers, Seqs, Locks, Srcs, Afters, Olders)
        /\ lv = {} /\ tk = "no" /\ ls = {} /\ bad = {} /\ pre = "no" /\ set = FALSE
Next == /\ ~set /\ set' = TRUE /\ UNCHANGED <<kind, ctx>>
        /\ lv' \in Known(Len(Tr)) /\ ls' \in SUBSET Pairs(Tr)
        /\ tk' \in {"no", "yes", "bad"} /\ (tk' # "no" => ls' \in {{}, Pairs(Tr)} /\ lv' \in {{}, 1..Len(Tr)})
        /\ bad' \in {{}} \cup {{x} : x \in Pairs(Tr) \ ls'} /\ (bad' # {} => lv' = 1..Len(Tr) /\ tk' = "no" /\ (Rich \/ Cardinality(ls') <= 1))
        /\ pre' \in (IF Pre_(kind) THEN {"no", "yes", "long"} ELSE {"no"}) /\ (lv' # 1..Len(Tr) => pre' = "yes" \/ ~Pre_(kind))
Spec == Init /\ [][Next]_vars
XX == XOf(ctx)
SPKT == "5120" \o TXID(77)
Ctl(j) == "c0" \o TXID(78) \o LH(j)
KSig == "40" \o HexByte(200)
LSig(x) == "41" \o HexByte(x[1]) \o HexByte(x[2])
BSig == "41ffff"
(* what could be put on the stack for leaf j of tree t *)
Univ(t, j) == {"", "01"} \cup {LSig(x) : x \in {y \in ls : y[1] = j}} \cup (LET o == {y \in ls : y[1] # j} IN IF o = {} THEN {} ELSE {LSig(CHOOSE y \in o : TRUE)})
           \cup (IF \E x \in bad : x[1] = j THEN {BSig} ELSE {}) \cup (IF "key" \in t[j][5] THEN {X(n) : n \in t[j][3]} ELSE {})
           \cup (IF "pre" \in t[j][5] THEN {OTH} \cup (CASE pre = "yes" -> {PRE} [] pre = "long" -> {LONG} [] OTHER -> {}) ELSE {})
TOn(t) == [h |-> {IF e = LONG THEN HLong ELSE H(e) : e \in UNION {Univ(t, j) : j \in 1..Len(t)}},
      sig |-> {<<"leaf", t[x[1]][1], X(x[2]), LSig(x)>> : x \in ls} \cup (IF tk = "yes" THEN {<<"key", "", TXID(77), KSig>>} ELSE {}),
      commit |-> {<<SPKT, t[j][1], Ctl(j)>> : j \in 1..Len(t)}]
Can == LET t == Tr tt == TOn(t) x == XX IN
       \/ tk # "no" /\ Spends(SPKT, "", <<IF tk = "yes" THEN KSig ELSE BSig>>, tt, x)
       \/ \E j \in lv : LET os == Ops(t[j][1]) u == Univ(t, j) IN
            \E n \in 0..t[j][4] : \E st \in [1..n -> u] : RunsOps(os, t[j][1], st, "leaf", tt, x)
(* the full rules for spending agree with running the leaf: the signatures alone, in the order the script wants them *)
Full == LET t == Tr tt == TOn(t) x == XX IN
        \A j \in lv : LET st == IF "key" \in t[j][5] \/ "pre" \in t[j][5] THEN <<>> ELSE LET RECURSIVE F(_) F(n) == IF n > 4 THEN <<>> ELSE F(n + 1) \o (IF n \in t[j][3] THEN <<IF <<j, n>> \in ls THEN LSig(<<j, n>>) ELSE "">> ELSE <<>>) IN F(1)
                      IN Spends(SPKT, "", st \o <<t[j][1], Ctl(j)>>, tt, x) = RunsOps(Ops(t[j][1]), t[j][1], st, "leaf", tt, x)
Pol == Sat(<<"thr", 1, <<<<"tapkey", "">>>> \o [j \in 1..Len(Tr) |-> Tr[j][2]]>>,
           [have |-> (IF tk = "yes" THEN {<<"tapkey", "">>} ELSE {}) \cup {L(x[1], x[2]) : x \in {y \in ls : y[1] \in lv}}
                     \cup (IF pre = "yes" THEN {<<"sha256", Hp(2)>>, <<"hash160", Hp(4)>>} ELSE {}), X |-> XX])
Agree == set => Can = Pol /\ Full
(* a control block that does not commit to the script never helps *)
Foreign == set => LET t == Tr tt == TOn(t) x == XX IN \A j \in 1..Len(t) : ~Spends(SPKT, "", <<LSig(<<j, 1>>), t[j][1], Ctl(j) \o "00">>, tt, x)
SeqOfPairs(S) == LET RECURSIVE F(_) F(Q) == IF Q = {} THEN <<>> ELSE LET k == CHOOSE x \in Q : \A y \in Q : 10 * x[1] + x[2] <= 10 * y[1] + y[2] IN <<<<k[1], k[2]>>>> \o F(Q \ {k}) IN F(S)
Emit == ~set \/ PrintT("CASE " \o ToJson([kind |-> kind, ver |-> ctx.ver, seq |-> ctx.seq, lock |-> ctx.lock, src |-> ctx.src, after |-> ctx.after, older |-> ctx.older,
                                  tap |-> tk, leaves |-> Nums(lv), lsigs |-> SeqOfPairs(ls), lbad |-> SeqOfPairs(bad), sigs |-> <<>>, bad |-> <<>>, pre |-> pre]))
=============================================================================
