----------------------------- MODULE Sign0Check -----------------------------
(* Judging one recorded call of the v0 signer.                                *)
EXTENDS JudgeBase, Sign0
ProvOf(s) == [fps |-> RangeOf(s.fps), pks |-> RangeOf(s.pks)]
VS(t) == [k \in 1..Len(t.ins) |-> t.ins[k].vout]
UsedAt(s, k) == {s.used[j] : j \in {x \in 1..Len(s.used) : s.used[x][1] = k}}
One(p, q, s, vs, nout, TAB, k) ==
  LET prov == ProvOf(s) W == Outcome(p, vs, k, nout, prov, TAB) m == p.i[k] n == q.i[k] U == UsedAt(s, k) at == " of input " \o ToString(k) IN
  IF W.st = "err" THEN
     IF k \notin RangeOf(s.errs) \/ U # {} THEN "no error although a signature" \o at \o " cannot be made"
     ELSE Req(n = m, "an input that failed changed")
  ELSE IF k \in RangeOf(s.errs) THEN "error although the signatures" \o at \o " can be made"
  ELSE IF Cardinality(U) # 1 THEN "no report for input " \o ToString(k)
  ELSE LET u == CHOOSE x \in U : TRUE IN
  IF u[2] # W.alg THEN "the keys" \o at \o " are reported under the wrong algorithm"
  ELSE IF RangeOf(u[3]) # W.keys \/ Len(u[3]) # Cardinality(W.keys) THEN "the keys reported are not those that must sign"
  ELSE IF W.alg = "ecdsa" THEN
    LET Bad == {x \in RangeOf(s.sigs) : x[1] = k /\ x[2] \in W.keys /\ ~(
                  /\ DigestOf(m, Utxo(p, vs, k, TAB).out.spk) \in RangeOf(x[4])
                  /\ SubSeq(x[3], Len(x[3]) - 1, Len(x[3])) = TypeByte(m)
                  /\ x[5] = Utxo(p, vs, k, TAB).out.amt)}
    IN First(<< Req(Drop(n, {"psig"}) = Drop(m, {"psig"}), "an input changed beyond its signatures"),
                Req(KeysOf(n, "psig") = KeysOf(m, "psig") \cup W.keys, "signatures were added for other keys than those available, or removed"),
                Req(\A e \in Only(m, {"psig"}) : e[2] \in W.keys \/ e \in n, "a signature by another key changed"),
                Req(Bad = {}, "a signature" \o at \o " is not valid for the digest prescribed, or has another sighash type") >>)
  ELSE
    LET New == TapNew(m, prov)
        NewKeys == {<<IF x[1] = "key" THEN "tapkeysig" ELSE "tapscriptsig", IF x[1] = "key" THEN "" ELSE x[2] \o x[3]>> : x \in New}
        Good(x) == \E y \in RangeOf(s.taps) :
           /\ y[1] = k /\ y[2] = x[1] /\ (x[1] = "leaf" => y[3] = x[2] /\ y[4] = x[3])
           /\ (IF x[1] = "key" THEN "key" ELSE "leaf:" \o x[3]) \in RangeOf(y[6])
           /\ (IF BLen(y[5]) = 64 THEN "00" ELSE BFrom(y[5], 64)) = TapByte(m)
    IN First(<< Req(Drop(n, {"tapkeysig", "tapscriptsig"}) = Drop(m, {"tapkeysig", "tapscriptsig"}), "an input changed beyond its signatures"),
                Req(Keys(n) = Keys(m) \cup NewKeys, "taproot signatures were added that are not due, or are missing"),
                Req(m \subseteq n, "an existing taproot signature changed"),
                Req(\A x \in New : Good(x), "a taproot signature" \o at \o " is not valid, or has another sighash type") >>)
CheckSign(s, t, TAB) ==
  IF s.res = "panic" THEN "signing panicked: " \o s.panic
  ELSE IF s.odd THEN ""
  ELSE LET p == Abs(s.p) q == Abs(s.q) N == 1..Len(p.i) IN
  IF TxHex(t) # Val(p.g, "unsignedtx") THEN "oracle and PSBT disagree on the transaction"
  ELSE IF q.g # p.g \/ q.o # p.o \/ Len(q.i) # Len(p.i) THEN "something beyond the inputs changed"
  ELSE First(<< Req(RangeOf(s.errs) \subseteq N /\ \A j \in 1..Len(s.used) : s.used[j][1] \in N, "a report for an input that does not exist"),
                Req((s.res = "err") = (s.errs # <<>>), "the result and its list of errors disagree"),
                First([k \in N |-> One(p, q, s, VS(t), Len(t.outs), TAB, k)]) >>)
==============================================================================
