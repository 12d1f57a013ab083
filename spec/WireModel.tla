------------------------------ MODULE WireModel ------------------------------
(* A writer puts down a PSBT pair by pair: the pairs its version requires, in   *)
(* some order, and up to Damage irregularities (a pair of any type with any     *)
(* class of key data and value, an oddly encoded pair, a required pair left     *)
(* out, a cut, a spoiled header, a byte too many).  A reader follows it one     *)
(* pair at a time.  Whatever was written, the reader's verdict is the one of    *)
(* Decode, and the properties below hold.                                       *)
EXTENDS FieldVals, Vals, Wire, Json
CONSTANTS Vers,       \* versions of the required pairs
          Sp,         \* silent payments feature
          AnyOrder,   \* required pairs in every order
          Damage,     \* number of irregularities
          Clean,      \* added pairs are all valid ones
          Focus       \* fields to add ({} for all of them)
VARIABLES ver,    \* version of the required pairs
          stage,  \* 1, 2, 3: writing the global, input, output map; 4: written; 5: spoilt
          todo,   \* required pairs still to be written in this map
          left,   \* what has been done out of the ordinary
          bytes, dmg,
          rd      \* the reader of each version
vars == <<ver, stage, todo, left, bytes, dmg, rd>>

(* --------------------------- what can be written --------------------------- *)
UTX == "02000000" \o "01" \o TXID(1) \o LE32(1) \o "00" \o "fdffffff" \o "01" \o AMT(1000) \o WithLen(SPK(1)) \o "00000000"
Req2 == "g" :> << <<"version", "", "02000000">>, <<"txver", "", "02000000">>, <<"incount", "", "01">>, <<"outcount", "", "01">> >>
     @@ "i" :> << <<"txid", "", TXID(1)>>, <<"vout", "", LE32(1)>> >>
     @@ "o" :> << <<"amount", "", AMT(1000)>>, <<"script", "", SPK(1)>> >>
Req0 == "g" :> << <<"unsignedtx", "", UTX>> >> @@ "i" :> <<>> @@ "o" :> <<>>
ReqOf(v, m) == IF v = 2 THEN Req2[m] ELSE Req0[m]
MAPS == <<"g", "i", "o">>
AllTypes(m) == Table(2, m, TRUE) @@ Table(0, m, TRUE)
TypeIn(m, f) == IF f = "unsignedtx" THEN "00" ELSE CHOOSE t \in DOMAIN AllTypes(m) : AllTypes(m)[t] = f
Raw(m, e) == IF e[1] = "unk" THEN <<BSub(e[2], 0, 1), BFrom(e[2], 1), e[3]>> ELSE <<TypeIn(m, e[1]), e[2], e[3]>>
Samples(m) == {<<x[2], x[3], x[4]>> : x \in {y \in FV : y[1] = m}} \cup RangeOf(Req2[m]) \cup RangeOf(Req0[m])
(* classes of damage to a string *)
Shorter(h) == IF h = "" THEN {} ELSE {BSub(h, 0, BLen(h) - 1)}
RECURSIVE FFs(_)
FFs(n) == IF n = 0 THEN "" ELSE "ff" \o FFs(n - 1)
First1(h) == IF h = "" THEN {} ELSE {HexByte((ByteAt(h, 0) + 1) % 256) \o BFrom(h, 1)}
Last1(h) == IF h = "" THEN {} ELSE {BSub(h, 0, BLen(h) - 1) \o HexByte((ByteAt(h, BLen(h) - 1) + 1) % 256)}
Odd(h) == Shorter(h) \cup First1(h) \cup Last1(h) \cup {h \o "00", "", IF BLen(h) > 80 THEN "ff" ELSE FFs(BLen(h))}
Reps(m) == {CHOOSE e \in Samples(m) : e[1] = f : f \in {e[1] : e \in Samples(m)}}
Wanted(m) == {e \in Samples(m) : Focus = {} \/ e[1] \in Focus}
Catalogue(m) ==
  {Raw(m, e) : e \in Wanted(m)}
  \cup IF Clean THEN {} ELSE UNION {LET r == Raw(m, e) IN {<<r[1], k, r[3]>> : k \in Odd(r[2])} \cup {<<r[1], r[2], v>> : v \in Odd(r[3])} : e \in Reps(m) \cap Wanted(m)}
  \cup (IF Focus = {} THEN {<<"40", "", "">>, <<"40", "00", "01">>, <<"ff", "", "aa">>} ELSE {})
CAT == [m \in {"g", "i", "o"} |-> Catalogue(m)]
(* the same pair in encodings that are not the shortest, or that claim more than there is *)
Misencoded(x) ==
  LET n == BLen(x[2]) + 1 k == x[1] \o x[2] l == BLen(x[3]) IN
  {"fd" \o HexByte(n) \o "00" \o k \o WithLen(x[3]), "fe" \o HexByte(n) \o "000000" \o k \o WithLen(x[3]),
   "ff" \o HexByte(n) \o "00000000000000" \o k \o WithLen(x[3])}
  \cup (IF l >= 253 THEN {} ELSE {VI(n) \o k \o "fd" \o HexByte(l) \o "00" \o x[3], VI(n) \o k \o "ffffffffffffffffff" \o x[3],
                                  VI(n) \o k \o "feffffff7f" \o x[3]})

(* --------------------------- what is cryptographically valid --------------------------- *)
OrcOfEntry(e) ==
  LET f == e[1] k == e[2] v == e[3] IN
  CASE f = "xpub" -> {<<"xpub:" \o k, k>>}
    [] f = "psig" -> {<<"pk:" \o k, k>>, <<"esig:" \o v, v>>}
    [] f = "bip32" -> {<<"spk:" \o k, k>>, <<"pk:" \o k, k>>}
    [] f \in {"ripemd", "sha256", "hash160", "hash256"} -> {<<f \o ":" \o v, k>>}
    [] f = "nwutxo" -> {<<"tx:" \o v, v>>}
    [] f = "tapkeysig" -> {<<"tsig:" \o v, v>>}
    [] f = "tapscriptsig" -> {<<"x:" \o BSub(k, 0, 32), BSub(k, 0, 32)>>, <<"tsig:" \o v, v>>}
    [] f = "tapleaf" -> {<<"x:" \o BSub(k, 1, 32), BSub(k, 1, 32)>>}
    [] f = "tapbip32" -> {<<"x:" \o k, k>>}
    [] f = "tapinternal" -> {<<"x:" \o v, v>>}
    [] f = "taptree" -> {<<"tree:" \o v, v>>}
    [] f = "ecdh" -> {<<"spk:" \o k, k>>, <<"spk:" \o v, v>>}
    [] f = "dleq" -> {<<"spk:" \o k, k>>}
    [] OTHER -> {}
ORCSET == UNION {OrcOfEntry(<<x[2], x[3], x[4]>>) : x \in FV}
ORC == [q \in {x[1] : x \in ORCSET} |-> (CHOOSE x \in ORCSET : x[1] = q)[2]]

(* --------------------------- the reader --------------------------- *)
(* [st, maps]: verdict so far and the entries of each map so far; the last map is open *)
RInit == [st |-> "ok", maps |-> << {} >>, keys |-> {}]
RTable(v) == Table(v, MAPS[stage], Sp)
Join(a, b) == Worst({a, b})
RPair(v, R, x) ==
  LET n == Len(R.maps) y == PairOk(ORC, v, RTable(v), x) k == <<x[1], x[2]>> IN
  IF R.st = "bad" \/ y.st = "bad" \/ k \in R.keys THEN [R EXCEPT !.st = "bad"]
  ELSE [st |-> Join(R.st, IF \E e \in R.maps[n] : e[1] = y.e[1] /\ e[2] = y.e[2] THEN "same" ELSE y.st),
        maps |-> [R.maps EXCEPT ![n] = @ \cup {y.e}], keys |-> R.keys \cup {k}]
RClose(v, R) ==
  LET n == Len(R.maps) m == R.maps[n] F == Fields(m) IN
  IF R.st = "bad" THEN R
  ELSE IF ~Required(v, MAPS[n], Sp, F) \/ ~Together(v, MAPS[n], Sp, F) THEN [R EXCEPT !.st = "bad"]
  ELSE [st |-> R.st, keys |-> {},
        maps |-> SubSeq(R.maps, 1, n - 1)
                 \o <<(IF v = 0 THEN Drop(m, {"version"}) ELSE m) \cup Defaults(v, MAPS[n], Sp, F)>> \o (IF n = 3 THEN <<>> ELSE << {} >>)]

(* --------------------------- the writer --------------------------- *)
Init == /\ ver \in Vers /\ stage = 1 /\ bytes = MAGIC /\ dmg = 0
        /\ todo = ReqOf(ver, "g") /\ left = "" /\ rd = [v \in {0, 2} |-> RInit]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
WriteReq ==
  /\ stage <= 3 /\ todo # <<>>
  /\ \E k \in (IF AnyOrder THEN 1..Len(todo) ELSE {1}) :
       LET x == Raw(MAPS[stage], todo[k]) IN
       /\ bytes' = bytes \o PairHex(x) /\ todo' = Without(todo, k)
       /\ rd' = [v \in {0, 2} |-> RPair(v, rd[v], x)]
  /\ UNCHANGED <<ver, stage, left, dmg>>
WriteExtra ==
  /\ stage <= 3 /\ dmg < Damage /\ (Clean => todo = <<>>)
  /\ \E x \in CAT[MAPS[stage]] :
       /\ bytes' = bytes \o PairHex(x)
       /\ rd' = [v \in {0, 2} |-> RPair(v, rd[v], x)]
  /\ dmg' = dmg + 1 /\ left' = left \o "+" /\ UNCHANGED <<ver, stage, todo>>
(* an odd encoding of the next required pair, or leaving it out *)
WriteOddly ==
  /\ stage <= 3 /\ dmg < Damage /\ todo # <<>> /\ Focus = {} /\ ~Clean
  /\ LET x == Raw(MAPS[stage], todo[1]) IN
     \/ \E h \in Misencoded(x) : bytes' = bytes \o h /\ rd' = [v \in {0, 2} |-> [rd[v] EXCEPT !.st = "bad"]]
     \/ bytes' = bytes /\ rd' = rd
  /\ todo' = Tail(todo) /\ dmg' = dmg + 1 /\ left' = left \o "!" /\ UNCHANGED <<ver, stage>>
Close ==
  /\ stage <= 3 /\ todo = <<>>
  /\ bytes' = bytes \o "00" /\ stage' = stage + 1
  /\ todo' = IF stage < 3 THEN ReqOf(ver, MAPS[stage + 1]) ELSE <<>>
  /\ rd' = [v \in {0, 2} |-> RClose(v, rd[v])]
  /\ UNCHANGED <<ver, left, dmg>>
(* afterwards: cut, spoil the header, add to the end *)
Spoil ==
  /\ stage = 4 /\ dmg = 0 /\ Damage > 0 /\ Focus = {} /\ ~Clean
  /\ \/ \E n \in 0..(BLen(bytes) - 1) : bytes' = BSub(bytes, 0, n)
     \/ \E n \in 0..4 : bytes' = BSub(bytes, 0, n) \o "71" \o BFrom(bytes, n + 1)
     \/ \E t \in {"00", "ff", bytes} : bytes' = bytes \o t
  /\ stage' = 5 /\ dmg' = 1 /\ left' = "x" /\ UNCHANGED <<ver, todo, rd>>
Next == WriteReq \/ WriteExtra \/ WriteOddly \/ Close \/ Spoil
Spec == Init /\ [][Next]_vars

(* --------------------------- the properties --------------------------- *)
D(v) == Decode(ORC, v, Sp, bytes)
Counted(R) == R.st = "bad" \/ (Val(R.maps[1], "incount") = "01" /\ Val(R.maps[1], "outcount") = "01")
CountedFor(v, R) == R.st = "bad" \/ (IF v = 2 THEN Counted(R) ELSE UTx(Val(R.maps[1], "unsignedtx")) = <<TRUE, 1, 1>>)
Canon(v, m, e) == PairHex(Pair(Table(v, m, Sp), e))
RECURSIVE CatSet(_)
CatSet(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN x \o CatSet(S \ {x})
Encode(v, p) == MAGIC \o CatSet({Canon(v, "g", e) : e \in p.g}) \o "00"
  \o Cat([k \in 1..Len(p.i) |-> CatSet({Canon(v, "i", e) : e \in p.i[k]}) \o "00"])
  \o Cat([k \in 1..Len(p.o) |-> CatSet({Canon(v, "o", e) : e \in p.o[k]}) \o "00"])
Done == stage >= 4
(* reading pair by pair is reading the whole *)
Stepwise == stage = 4 => \A v \in {0, 2} :
  LET R == rd[v] d == D(v) IN
  CountedFor(v, R) => d.st = R.st /\ (R.st # "bad" => d.p = [g |-> R.maps[1], i |-> <<R.maps[2]>>, o |-> <<R.maps[3]>>])
(* no byte string is both a v0 and a v2 PSBT *)
OneVersion == Done => "bad" \in {D(0).st, D(2).st}
(* what was read can be written, in an order of its own, and reads back the same *)
RoundTrip == Done => \A v \in {0, 2} : LET d == D(v) IN
  d.st # "bad" => LET h == Encode(v, d.p) e == Decode(ORC, v, Sp, h) IN
                  IsEncoding(v, Sp, h, d.p) /\ e.p = d.p /\ e.st \in {"ok", "free"}
(* no part of a PSBT is a PSBT; what follows one is left alone *)
NoPrefix == stage = 5 => \A v \in {0, 2} : D(v).st \in {"bad", "free"}
(* without irregularities it is a PSBT of its version *)
Sound == (stage = 4 /\ dmg = 0) => D(ver).st = "ok"
Emit == IF Done THEN PrintT("CASE " \o ToJson([k |-> "bytes", hex |-> bytes])) ELSE TRUE
EmitRound == IF stage = 4 /\ D(ver).st = "ok" THEN PrintT("CASE " \o ToJson([k |-> "round", ver |-> ver, rs |-> BLen(bytes), p |-> D(ver).p])) ELSE TRUE
=============================================================================
