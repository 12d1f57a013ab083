------------------------------ MODULE MC_C28 ------------------------------
(* Transactions written input by input and output by output; the reader of    *)
(* the wire format takes the PSBT created from one back to it.                *)
EXTENDS Create0, Vals, Json
CONSTANTS MaxIn, MaxOut, Scripts, Wits, Vers, Seqs
VARIABLES t, s, done
vars == <<t, s, done>>
Init == t \in {[v |-> v, lt |-> "00000000", ins |-> <<>>, outs |-> <<>>] : v \in Vers} /\ s = <<>> /\ done = FALSE
AddIn == /\ ~done /\ t.outs = <<>> /\ Len(t.ins) < MaxIn
         /\ \E ss \in Scripts, w \in Wits, q \in Seqs :
              /\ t' = [t EXCEPT !.ins = Append(@, [txid |-> TXID(Len(t.ins) + 1), vout |-> LE32(Len(t.ins)), seq |-> q])]
              /\ s' = Append(s, <<ss, w>>)
         /\ UNCHANGED done
AddOut == /\ ~done /\ Len(t.outs) < MaxOut
          /\ \E a \in {0, 1000} : t' = [t EXCEPT !.outs = Append(@, [amt |-> AMT(a), spk |-> IF a = 0 THEN "" ELSE SPK(1)])]
          /\ UNCHANGED <<s, done>>
Stop == ~done /\ done' = TRUE /\ \E l \in {"00000000", "ffffffff"} : t' = [t EXCEPT !.lt = l] /\ UNCHANGED s
Next == AddIn \/ AddOut \/ Stop
Spec == Init /\ [][Next]_vars
EveryInput == Unsigned(s) <=> \A k \in 1..Len(s) : s[k] = <<"", NOWIT>>
Once == ~Unsigned(s) => \E k \in 1..Len(s) : Fault(s[k]) = FirstFault(s, 1) /\ \A j \in 1..(k - 1) : s[j] = <<"", NOWIT>>
Written == done => IsEncoding(0, FALSE, CreatedHex(t), Created(t))
Reads == done => LET D == Decode(<<>>, 0, FALSE, CreatedHex(t)) IN D.st = "ok" /\ D.p = Created(t)
NotTwo == done => Decode(<<>>, 2, FALSE, CreatedHex(t)).st = "bad"
Emit == done => PrintT("CASE " \o ToJson([tx |-> t, sigs |-> s]))
=============================================================================
