------------------------------ MODULE SignCheck ------------------------------
(* Judging one recorded call of the v2 signer.                                *)
EXTENDS JudgeBase, Sign
ProvOf(s) == [fps |-> RangeOf(s.fps), pks |-> RangeOf(s.pks)]
UsedSet(s) == UNION {{<<s.used[j][1], s.used[j][2][n]>> : n \in 1..Len(s.used[j][2])} : j \in 1..Len(s.used)}
(* rows of the signature table: [input, key, signature, digests it is valid for, amount] *)
Rows(s) == RangeOf(s.sigs)
SignedBy(p, s, TAB) == LET prov == ProvOf(s) IN [k \in 1..Len(p.i) |-> Signs(p, k, prov, TAB)]
CheckSigs(p, s, TAB, Sg) ==
  LET Bad == {r \in Rows(s) : r[2] \in Sg[r[1]] /\ ~(
                 /\ Digest(p, r[1], TAB) \in RangeOf(r[4])
                 /\ SubSeq(r[3], Len(r[3]) - 1, Len(r[3])) = TypeByte(p.i[r[1]])
                 /\ r[5] = Fund(p, r[1], TAB).out.amt)}
  IN IF Bad = {} THEN Req(s.tx = TxHex(Tx(p)), "oracle and specification disagree on the transaction")
     ELSE LET r == CHOOSE x \in Bad : TRUE IN "signature of input " \o ToString(r[1]) \o " is not valid for the digest prescribed, or has another sighash type"
CheckSign(s) ==
  LET p == Abs(s.p) IN
  IF s.res = "panic" THEN "signing panicked: " \o s.panic
  ELSE IF ~LockOk(p) THEN Req(s.res = "nosigner", "signed although no lock time can be determined")
  ELSE IF ~CountsOk(p) THEN ""
  ELSE
  LET TAB == TabOf(s.tab)
      prov == ProvOf(s)
      N == 1..Len(p.i)
      Sg == SignedBy(p, s, TAB)
      Fl == {k \in N : Fails(p, k, prov, TAB)}
      Want == UNION {{<<k, pk>> : pk \in Sg[k]} : k \in N}
  IN IF s.res = "nosigner" THEN "signer refused"
     ELSE IF (s.res = "err") # (Fl # {}) THEN (IF s.res = "err" THEN "error although every available key can sign" ELSE "no error although some input with an available key cannot be signed")
     ELSE IF UsedSet(s) # Want THEN "the keys reported are not those that must sign"
     ELSE IF s.res = "err" THEN Req(RangeOf(s.errs) = Fl, "errors are reported for the wrong inputs")
     ELSE LET q == Abs(s.q) IN
     IF Drop(q.g, {"mod"}) # Drop(p.g, {"mod"}) THEN "the global map changed"
     ELSE IF q.o # p.o THEN "an output changed"
     ELSE IF Len(q.i) # Len(p.i) THEN "the number of inputs changed"
     ELSE IF \E k \in N : Drop(q.i[k], {"psig"}) # Drop(p.i[k], {"psig"}) THEN "an input changed beyond its signatures"
     ELSE IF \E k \in N : KeysOf(q.i[k], "psig") # KeysOf(p.i[k], "psig") \cup Sg[k] THEN "signatures were added for other keys than those available, or removed"
     ELSE IF \E k \in N : \E e \in Only(p.i[k], {"psig"}) : e[2] \notin Sg[k] /\ e \notin q.i[k] THEN "a signature by another key changed"
     ELSE CheckSigs(p, s, TAB, Sg)
==============================================================================
