------------------------------- MODULE MC_C07 -------------------------------
(* The identifier under every kind of edit: data edits keep it, transaction  *)
(* edits move it.                                                            *)
EXTENDS Vals, Json
CONSTANTS Depth, Heights, Times
VARIABLES p, q, moved, n      \* p: start, q: after n edits; moved: some edit touched the transaction
vars == <<p, q, moved, n>>
HV == Heights
Starts == {[g |-> GlobalOf(Len(is), Len(os), Opt("fallback", f)), i |-> is, o |-> os] :
             f \in {"", "09000000"},
             is \in {<<>>, <<InputOf(1, {})>>, <<InputOf(1, {<<"sequence", "", "00000000">>}), InputOf(2, {<<"minheight", "", "05000000">>})>>,
                     <<InputOf(1, {<<"mintime", "", "0065cd1d">>}), InputOf(2, {<<"mintime", "", "0165cd1d">>, <<"minheight", "", "05000000">>})>>},
             os \in {<<>>, <<OutputOf(1, {})>>, <<OutputOf(1, {}), OutputOf(2, {})>>}}
Init == p \in Starts /\ q = p /\ moved = FALSE /\ n = 0
Edit(r, mv) == q' = r /\ moved' = (moved \/ mv) /\ n' = n + 1 /\ UNCHANGED p
I == 1..Len(q.i)
O == 1..Len(q.o)
DataEdit == \/ \E k \in I, s \in {"", "00000000", "fdffffff"} : Edit([q EXCEPT !.i[k] = Drop(@, {"sequence"}) \cup Opt("sequence", s)], FALSE)
            \/ \E k \in I : \E f \in {<<"sighash", "", "01000000">>, <<"redeem", "", "51">>, <<"wscript", "", "52">>,
                                      <<"wutxo", "", AMT(7) \o "00">>, <<"unk", "9901", "77">>, <<"bip32", PK(1), "0102030400000000">>,
                                      <<"ripemd", "9c1185a5c5e9fc54612808977ee8f548b2258d31", "">>,
                                      <<"fsig", "", "51">>, <<"fwit", "", "0101aa">>} :
                 Edit([q EXCEPT !.i[k] = PutKey(@, f[1], f[2], f[3])], FALSE)
            \/ \E k \in O : \E f \in {<<"redeem", "", "51">>, <<"unk", "9901", "77">>, <<"bip32", PK(2), "0102030400000000">>,
                                      <<"tapinternal", "", SubSeq(PK(3), 3, 66)>>} :
                 Edit([q EXCEPT !.o[k] = PutKey(@, f[1], f[2], f[3])], FALSE)
            \/ \E b \in {"00", "03", "07"} : Edit([q EXCEPT !.g = Put(@, "mod", b)], FALSE)
            \/ Edit([q EXCEPT !.g = PutKey(@, "unk", "9902", "")], FALSE)
(* Transaction edits; each one produces a different transaction *)
TxEdit == \/ \E k \in I : Edit([q EXCEPT !.i[k] = Put(@, "txid", TXID(9))], Val(q.i[k], "txid") # TXID(9))
          \/ \E k \in I, x \in {"ffffffff", "00000080"} : Edit([q EXCEPT !.i[k] = Put(@, "vout", x)], Val(q.i[k], "vout") # x)
          \/ \E k \in O, x \in {"0000000000000000", "ffffffffffffffff", "e903000000000001"} : Edit([q EXCEPT !.o[k] = Put(@, "amount", x)], Val(q.o[k], "amount") # x)
          \/ \E k \in O, x \in {"", "6a"} : Edit([q EXCEPT !.o[k] = Put(@, "script", x)], Val(q.o[k], "script") # x)
          \/ Len(q.i) < 3 /\ Edit([q EXCEPT !.i = Append(@, InputOf(5, {})), !.g = Put(@, "incount", VI(Len(q.i) + 1))], TRUE)
          \/ Len(q.o) < 3 /\ Edit([q EXCEPT !.o = Append(@, OutputOf(5, {})), !.g = Put(@, "outcount", VI(Len(q.o) + 1))], TRUE)
          \/ Len(q.i) > 1 /\ q.i[1] # q.i[2] /\ Edit([q EXCEPT !.i = <<q.i[2], q.i[1]>> \o SubSeq(@, 3, Len(@))], {e \in q.i[1] : e[1] \in {"txid","vout"}} # {e \in q.i[2] : e[1] \in {"txid","vout"}})
          \/ Len(q.o) > 1 /\ Edit([q EXCEPT !.o = <<q.o[2], q.o[1]>> \o SubSeq(@, 3, Len(@))], {e \in q.o[1] : e[1] \in {"amount","script"}} # {e \in q.o[2] : e[1] \in {"amount","script"}})
          \/ \E v \in {"01000000", "00000000"} : Edit([q EXCEPT !.g = Put(@, "txver", v)], TRUE)
          \/ \E f \in {"", "0a000000"} : LET r == [q EXCEPT !.g = Drop(@, {"fallback"}) \cup Opt("fallback", f)] IN Edit(r, LockTime(r) # LockTime(q))
          \/ \E k \in I, h \in Heights, t \in Times :
               LET r == [q EXCEPT !.i[k] = Drop(@, {"mintime", "minheight"}) \cup Opt("minheight", h) \cup Opt("mintime", t)] IN Edit(r, LockTime(r) # LockTime(q))
Next == n < Depth /\ (DataEdit \/ TxEdit)
Spec == Init /\ [][Next]_vars
BothOk == LockOk(p) /\ LockOk(q)
(* One edit: the identifier moves exactly when the edit touches the transaction; several data edits never move it *)
IdMoves == BothOk => /\ (n <= 1 => ((IdHex(p) # IdHex(q)) <=> moved))
                     /\ (~moved => IdHex(p) = IdHex(q))
(* and it is determined by the transaction without sequences *)
IdByTx == BothOk => ((IdHex(p) = IdHex(q)) <=> (IdTx(p) = IdTx(q)))
Emit == IF n = 0 THEN TRUE ELSE PrintT("CASE " \o ToJson([ps |-> <<p, q>>]))
=============================================================================
