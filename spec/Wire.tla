-------------------------------- MODULE Wire --------------------------------
(* The wire format of BIP-174 / 370 / 371 / 375: which byte strings are PSBTs   *)
(* and which abstract PSBT each of them stands for.                             *)
(* Cryptographic validity and non-witness transactions come from an oracle      *)
(* table ORC: "kind:rawhex" -> canonical hex, holding only what is valid.       *)
EXTENDS Psbt

(* ------------------------------ key types ------------------------------ *)
COMIN == "00" :> "nwutxo" @@ "01" :> "wutxo" @@ "02" :> "psig" @@ "03" :> "sighash" @@ "04" :> "redeem" @@ "05" :> "wscript"
      @@ "06" :> "bip32" @@ "07" :> "fsig" @@ "08" :> "fwit" @@ "0a" :> "ripemd" @@ "0b" :> "sha256" @@ "0c" :> "hash160"
      @@ "0d" :> "hash256" @@ "13" :> "tapkeysig" @@ "14" :> "tapscriptsig" @@ "15" :> "tapleaf" @@ "16" :> "tapbip32"
      @@ "17" :> "tapinternal" @@ "18" :> "tapmerkle" @@ "fc" :> "prop"
COMOUT == "00" :> "redeem" @@ "01" :> "wscript" @@ "02" :> "bip32" @@ "05" :> "tapinternal" @@ "06" :> "taptree"
       @@ "07" :> "tapbip32" @@ "fc" :> "prop"
G2N == "01" :> "xpub" @@ "02" :> "txver" @@ "03" :> "fallback" @@ "04" :> "incount" @@ "05" :> "outcount" @@ "06" :> "mod"
    @@ "fb" :> "version" @@ "fc" :> "prop" @@ "00" :> "BAN"
G2S == G2N @@ "07" :> "ecdh" @@ "08" :> "dleq"
I2N == COMIN @@ "0e" :> "txid" @@ "0f" :> "vout" @@ "10" :> "sequence" @@ "11" :> "mintime" @@ "12" :> "minheight"
I2S == I2N @@ "1d" :> "ecdh" @@ "1e" :> "dleq"
O2N == COMOUT @@ "03" :> "amount" @@ "04" :> "script"
O2S == O2N @@ "09" :> "spinfo" @@ "0a" :> "splabel"
G0T == "00" :> "unsignedtx" @@ "01" :> "xpub" @@ "fb" :> "version" @@ "fc" :> "prop"
    @@ "02" :> "BAN" @@ "03" :> "BAN" @@ "04" :> "BAN" @@ "05" :> "BAN" @@ "06" :> "BAN"
I0T == COMIN @@ "0e" :> "BAN" @@ "0f" :> "BAN" @@ "10" :> "BAN" @@ "11" :> "BAN" @@ "12" :> "BAN"
O0T == COMOUT @@ "03" :> "BAN" @@ "04" :> "BAN"
(* ver: 2 or 0; map: "g", "i" or "o"; sp: silent payments feature *)
Table(ver, map, sp) ==
  IF ver = 0 THEN (CASE map = "g" -> G0T [] map = "i" -> I0T [] map = "o" -> O0T)
  ELSE IF sp THEN (CASE map = "g" -> G2S [] map = "i" -> I2S [] map = "o" -> O2S)
  ELSE (CASE map = "g" -> G2N [] map = "i" -> I2N [] map = "o" -> O2N)
Types(tb, f) == {t \in DOMAIN tb : tb[t] = f}
TypeOf(tb, f) == CHOOSE t \in DOMAIN tb : tb[t] = f
FieldOf(tb, t) == IF t \in DOMAIN tb THEN tb[t] ELSE "unk"
KEYEDF == {"xpub", "psig", "bip32", "ripemd", "sha256", "hash160", "hash256", "tapscriptsig", "tapleaf", "tapbip32", "prop", "unk", "ecdh", "dleq"}

(* ------------------------------ reading ------------------------------ *)
HUGE == 2000000000
(* minimal CompactSize at byte offset i: <<ok, number, next offset>> *)
ReadVI(h, i) ==
  LET n == BLen(h) IN
  IF i >= n THEN <<FALSE, 0, i>>
  ELSE LET b == ByteAt(h, i) IN
    IF b < 253 THEN <<TRUE, b, i + 1>>
    ELSE IF b = 253 THEN IF i + 3 > n THEN <<FALSE, 0, i>>
         ELSE LET x == ByteAt(h, i + 1) + 256 * ByteAt(h, i + 2) IN <<x >= 253, x, i + 3>>
    ELSE IF b = 254 THEN IF i + 5 > n THEN <<FALSE, 0, i>>
         ELSE LET lo == ByteAt(h, i + 1) + 256 * ByteAt(h, i + 2) hi == ByteAt(h, i + 3) + 256 * ByteAt(h, i + 4)
              IN <<hi > 0, IF hi >= 16384 THEN HUGE ELSE lo + 65536 * hi, i + 5>>
    ELSE IF i + 9 > n THEN <<FALSE, 0, i>>
         ELSE <<BSub(h, i + 5, 4) # "00000000", HUGE, i + 9>>
Rest(h, i) == BLen(h) - i
(* length-prefixed string at i: <<ok, content, next>> *)
ReadStr(h, i) == LET v == ReadVI(h, i) IN
  IF ~v[1] \/ v[2] > Rest(h, v[3]) THEN <<FALSE, "", i>> ELSE <<TRUE, BSub(h, v[3], v[2]), v[3] + v[2]>>
(* pairs <<type, keydata, value>> up to the separator: [ok, ps, next] *)
RECURSIVE ReadMap(_, _, _)
ReadMap(h, i, acc) ==
  LET k == ReadStr(h, i) IN
  IF ~k[1] THEN [ok |-> FALSE, ps |-> acc, next |-> i]
  ELSE IF k[2] = "" THEN [ok |-> TRUE, ps |-> acc, next |-> k[3]]
  ELSE LET v == ReadStr(h, k[3]) IN
       IF ~v[1] THEN [ok |-> FALSE, ps |-> acc, next |-> i]
       ELSE ReadMap(h, v[3], Append(acc, <<BSub(k[2], 0, 1), BFrom(k[2], 1), v[2]>>))
RECURSIVE ReadMaps(_, _, _, _)
ReadMaps(h, i, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, ms |-> acc, next |-> i]
  ELSE LET m == ReadMap(h, i, <<>>) IN
       IF ~m.ok THEN [ok |-> FALSE, ms |-> acc, next |-> i] ELSE ReadMaps(h, m.next, n - 1, Append(acc, m.ps))

(* ------------------------------ values ------------------------------ *)
(* the judgement on one value: <<"ok"|"free"|"bad", canonical value>>;             *)
(* "free": BIP leaves it open whether a decoder takes it                            *)
BAD == <<"bad", "">>
OK(v) == <<"ok", v>>
Chk(c, v) == IF c THEN OK(v) ELSE BAD
ByOrc(ORC, kind, v) == LET q == kind \o ":" \o v IN
  IF q \notin DOMAIN ORC THEN BAD ELSE <<IF ORC[q] = v THEN "ok" ELSE "free", ORC[q]>>
HasOrc(ORC, kind, v) == (kind \o ":" \o v) \in DOMAIN ORC
IsKeySource(v) == BLen(v) >= 4 /\ BLen(v) % 4 = 0
LeafVer(b) == b % 2 = 0 /\ b # 80
(* VI n, then n strings, nothing left *)
RECURSIVE Strings(_, _, _)
Strings(h, i, n) == IF n = 0 THEN i = BLen(h) ELSE LET s == ReadStr(h, i) IN s[1] /\ Strings(h, s[3], n - 1)
IsWitness(v) == LET n == ReadVI(v, 0) IN n[1] /\ n[2] <= Rest(v, n[3]) /\ Strings(v, n[3], n[2])
IsTxOut(v) == BLen(v) >= 9 /\ (LET s == ReadStr(v, 8) IN s[1] /\ s[3] = BLen(v))
IsTapOrigin(v) == LET n == ReadVI(v, 0) IN
  n[1] /\ n[2] <= Rest(v, n[3]) \div 32 /\ IsKeySource(BFrom(v, n[3] + 32 * n[2]))
(* Leaves in depth-first order, the tree complete.  stk: depths of finished subtrees.  *)
RECURSIVE Fold(_)
Fold(stk) == LET n == Len(stk) IN
  IF n >= 2 /\ stk[n] = stk[n - 1] /\ stk[n] > 0 THEN Fold(Append(SubSeq(stk, 1, n - 2), stk[n] - 1)) ELSE stk
RECURSIVE Tree(_, _, _)
Tree(v, i, stk) ==
  IF i = BLen(v) THEN stk = <<0>>
  ELSE /\ Rest(v, i) >= 3
       /\ LET d == ByteAt(v, i) s == ReadStr(v, i + 2) IN
          /\ d <= 128 /\ LeafVer(ByteAt(v, i + 1)) /\ s[1]
          /\ stk # <<0>>
          /\ (stk # <<>> => d >= stk[Len(stk)])
          /\ Tree(v, s[3], Fold(Append(stk, d)))
IsTapTree(v) == Tree(v, 0, <<>>)
IsControlBlock(ORC, k) ==
  LET n == BLen(k) IN n >= 33 /\ (n - 33) % 32 = 0 /\ (n - 33) \div 32 <= 128
                      /\ LeafVer((ByteAt(k, 0) \div 2) * 2) /\ HasOrc(ORC, "x", BSub(k, 1, 32))
(* the unsigned transaction of a v0 PSBT: <<ok, number of inputs, number of outputs>> *)
RECURSIVE TxIns(_, _, _)
TxIns(h, i, n) == IF n = 0 THEN <<TRUE, i>>
  ELSE IF Rest(h, i) < 41 \/ ByteAt(h, i + 36) # 0 THEN <<FALSE, i>> ELSE TxIns(h, i + 41, n - 1)
RECURSIVE TxOuts(_, _, _)
TxOuts(h, i, n) == IF n = 0 THEN <<TRUE, i>>
  ELSE IF Rest(h, i) < 9 THEN <<FALSE, i>>
  ELSE LET s == ReadStr(h, i + 8) IN IF ~s[1] THEN <<FALSE, i>> ELSE TxOuts(h, s[3], n - 1)
UTx(h) ==
  IF BLen(h) < 10 THEN <<FALSE, 0, 0>>
  ELSE LET ni == ReadVI(h, 4) IN
    IF ~ni[1] \/ ni[2] > Rest(h, ni[3]) THEN <<FALSE, 0, 0>>
    ELSE LET a == TxIns(h, ni[3], ni[2]) IN
      IF ~a[1] THEN <<FALSE, 0, 0>>
      ELSE LET no == ReadVI(h, a[2]) IN
        IF ~no[1] \/ no[2] > Rest(h, no[3]) THEN <<FALSE, 0, 0>>
        ELSE LET b == TxOuts(h, no[3], no[2]) IN
             <<b[1] /\ b[2] + 4 = BLen(h), ni[2], no[2]>>
PropOk(k) == LET p == ReadStr(k, 0) IN
  IF ~p[1] \/ Rest(k, p[3]) = 0 THEN BAD ELSE <<IF Rest(k, p[3]) - 1 <= 1024 THEN "ok" ELSE "free", k>>

(* key data of a keyed field *)
KeyOk(ORC, f, t, k) ==
  CASE f = "unk" -> OK(t \o k)
    [] f = "prop" -> PropOk(k)
    [] f = "xpub" -> ByOrc(ORC, "xpub", k)
    [] f = "psig" -> ByOrc(ORC, "pk", k)
    [] f = "bip32" -> ByOrc(ORC, "spk", k)
    [] f \in {"ripemd", "hash160"} -> Chk(BLen(k) = 20, k)
    [] f \in {"sha256", "hash256"} -> Chk(BLen(k) = 32, k)
    [] f = "tapscriptsig" -> Chk(BLen(k) = 64 /\ HasOrc(ORC, "x", BSub(k, 0, 32)), k)
    [] f = "tapleaf" -> Chk(IsControlBlock(ORC, k), k)
    [] f = "tapbip32" -> ByOrc(ORC, "x", k)
    [] f \in {"ecdh", "dleq"} -> IF BLen(k) = 33 THEN ByOrc(ORC, "spk", k) ELSE BAD
(* value of a field; k is the key data *)
ValOk(ORC, ver, f, k, v) ==
  CASE f = "version" -> Chk(v = IF ver = 2 THEN "02000000" ELSE "00000000", v)
    [] f \in {"txver", "fallback", "vout", "sequence", "sighash", "splabel"} -> Chk(BLen(v) = 4, v)
    [] f \in {"incount", "outcount"} -> LET n == ReadVI(v, 0) IN
         IF ~n[1] THEN BAD ELSE <<IF n[3] = BLen(v) THEN "ok" ELSE "free", BSub(v, 0, n[3])>>
    [] f = "mod" -> Chk(BLen(v) = 1, v)
    [] f \in {"xpub", "bip32"} -> Chk(IsKeySource(v), v)
    [] f \in {"txid", "tapmerkle"} -> Chk(BLen(v) = 32, v)
    [] f = "mintime" -> Chk(BLen(v) = 4 /\ Le32(TIME0, U32(v)), v)
    [] f = "minheight" -> Chk(BLen(v) = 4 /\ Lt32(U32(v), TIME0), v)
    [] f = "nwutxo" -> ByOrc(ORC, "tx", v)
    [] f = "wutxo" -> Chk(IsTxOut(v), v)
    [] f = "psig" -> ByOrc(ORC, "esig", v)
    [] f \in {"redeem", "wscript", "fsig", "script", "prop", "unk"} -> OK(v)
    [] f = "fwit" -> Chk(IsWitness(v), v)
    [] f \in {"ripemd", "sha256", "hash160", "hash256"} -> LET q == f \o ":" \o v IN Chk(q \in DOMAIN ORC /\ ORC[q] = k, v)
    [] f \in {"tapkeysig", "tapscriptsig"} -> ByOrc(ORC, "tsig", v)
    [] f = "tapleaf" -> Chk(v # "" /\ LeafVer(ByteAt(v, BLen(v) - 1)), v)
    [] f = "tapbip32" -> Chk(IsTapOrigin(v), v)
    [] f = "tapinternal" -> ByOrc(ORC, "x", v)
    [] f = "taptree" -> IF ~IsTapTree(v) THEN BAD ELSE IF HasOrc(ORC, "tree", v) THEN OK(ORC["tree:" \o v]) ELSE <<"free", v>>
    [] f = "amount" -> Chk(BLen(v) = 8, v)
    [] f = "ecdh" -> IF BLen(v) = 33 THEN ByOrc(ORC, "spk", v) ELSE BAD
    [] f = "dleq" -> Chk(BLen(v) = 64, v)
    [] f = "spinfo" -> Chk(BLen(v) = 66, v)
    [] f = "unsignedtx" -> Chk(UTx(v)[1], v)

(* one pair: [st, e] *)
PairOk(ORC, ver, tb, x) ==
  LET f == FieldOf(tb, x[1]) IN
  IF f = "BAN" THEN [st |-> "bad", e |-> <<>>]
  ELSE IF f \notin KEYEDF
       THEN IF x[2] # "" THEN [st |-> "bad", e |-> <<>>]
            ELSE LET v == ValOk(ORC, ver, f, "", x[3]) IN [st |-> v[1], e |-> <<f, "", v[2]>>]
       ELSE IF x[2] = "" /\ f # "unk" THEN [st |-> "bad", e |-> <<>>]
       ELSE LET k == KeyOk(ORC, f, x[1], x[2]) IN
            IF k[1] = "bad" THEN [st |-> "bad", e |-> <<>>]
            ELSE LET v == ValOk(ORC, ver, f, k[2], x[3]) IN
                 [st |-> IF v[1] = "bad" THEN "bad" ELSE IF "free" \in {k[1], v[1]} THEN "free" ELSE "ok", e |-> <<f, k[2], v[2]>>]

(* what must be present, and what must come together *)
Required(ver, map, sp, F) ==
  CASE map = "g" -> IF ver = 0 THEN "unsignedtx" \in F
                    ELSE {"version", "txver", "incount", "outcount"} \subseteq F
    [] map = "i" -> ver = 0 \/ {"txid", "vout"} \subseteq F
    [] map = "o" -> ver = 0 \/ ("amount" \in F /\ (sp \/ "script" \in F))
Together(ver, map, sp, F) ==
  (ver = 2 /\ sp) => /\ (map \in {"g", "i"} => ("ecdh" \in F) = ("dleq" \in F))
                     /\ (map = "o" => ("splabel" \in F => "spinfo" \in F))
(* what the decoded structure holds for fields that are absent *)
Defaults(ver, map, sp, F) ==
  IF ver = 0 THEN {}
  ELSE (IF map = "g" /\ "mod" \notin F THEN {<<"mod", "", "00">>} ELSE {})
       \cup (IF map = "o" /\ "script" \notin F THEN {<<"script", "", "">>} ELSE {})
(* one map, given as the sequence of its pairs: [st, m] *)
MapOk(ORC, ver, map, sp, ps) ==
  LET tb == Table(ver, map, sp)
      R == [n \in 1..Len(ps) |-> PairOk(ORC, ver, tb, ps[n])]
      st == {R[n].st : n \in 1..Len(ps)}
      K == {<<ps[n][1], ps[n][2]>> : n \in 1..Len(ps)}
  IN IF "bad" \in st \/ Cardinality(K) # Len(ps) THEN [st |-> "bad", m |-> {}]
     ELSE LET m == {R[n].e : n \in 1..Len(ps)} F == Fields(m) IN
          IF ~Required(ver, map, sp, F) \/ ~Together(ver, map, sp, F) THEN [st |-> "bad", m |-> {}]
          ELSE [st |-> IF Cardinality(Keys(m)) # Len(ps) THEN "same" ELSE IF "free" \in st THEN "free" ELSE "ok",
                m |-> (IF ver = 0 THEN Drop(m, {"version"}) ELSE m) \cup Defaults(ver, map, sp, F)]

(* ------------------------------ the decoder ------------------------------ *)
MAGIC == "70736274ff"
NOTPSBT == [st |-> "bad", p |-> [g |-> {}, i |-> <<>>, o |-> <<>>]]
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "same" \in S THEN "same" ELSE IF "free" \in S THEN "free" ELSE "ok"
CountOf(v) == ReadVI(v, 0)[2]
Decode(ORC, ver, sp, h) ==
  IF ~StartsWith(h, MAGIC) THEN NOTPSBT
  ELSE LET G == ReadMap(h, 5, <<>>) IN
  IF ~G.ok THEN NOTPSBT
  ELSE LET g == MapOk(ORC, ver, "g", sp, G.ps) IN
  IF g.st = "bad" THEN NOTPSBT
  ELSE LET n == IF ver = 2 THEN <<CountOf(Val(g.m, "incount")), CountOf(Val(g.m, "outcount"))>>
                ELSE LET u == UTx(Val(g.m, "unsignedtx")) IN <<u[2], u[3]>>
           left == Rest(h, G.next) IN
  IF n[1] > left \/ n[2] > left THEN NOTPSBT
  ELSE LET I == ReadMaps(h, G.next, n[1], <<>>) IN
  IF ~I.ok THEN NOTPSBT
  ELSE LET O == ReadMaps(h, I.next, n[2], <<>>) IN
  IF ~O.ok THEN NOTPSBT
  ELSE LET is == [k \in 1..n[1] |-> MapOk(ORC, ver, "i", sp, I.ms[k])]
           os == [k \in 1..n[2] |-> MapOk(ORC, ver, "o", sp, O.ms[k])]
           st == Worst({g.st} \cup {is[k].st : k \in 1..n[1]} \cup {os[k].st : k \in 1..n[2]}
                       \cup (IF O.next = BLen(h) THEN {} ELSE {"free"}))
       IN IF st = "bad" THEN NOTPSBT
          ELSE [st |-> st, p |-> [g |-> g.m, i |-> [k \in 1..n[1] |-> is[k].m], o |-> [k \in 1..n[2] |-> os[k].m]]]

(* ------------------------------ the encoder ------------------------------ *)
Pair(tb, e) == IF e[1] = "unk" THEN <<BSub(e[2], 0, 1), BFrom(e[2], 1), e[3]>> ELSE <<TypeOf(tb, e[1]), e[2], e[3]>>
PairHex(x) == VI(BLen(x[2]) + 1) \o x[1] \o x[2] \o WithLen(x[3])
SeqHex(ps) == Cat([k \in 1..Len(ps) |-> PairHex(ps[k])]) \o "00"
EncSet(ver, map, sp, m) == LET tb == Table(ver, map, sp) IN {Pair(tb, e) : e \in m}
(* h is a serialization of p: one pair per entry, maps in order, nothing else *)
ReadsAs(ver, map, sp, ps, m) == LET E == EncSet(ver, map, sp, m) IN Len(ps) = Cardinality(E) /\ RangeOf(ps) = E
IsEncoding(ver, sp, h, p) ==
  /\ StartsWith(h, MAGIC)
  /\ LET G == ReadMap(h, 5, <<>>) IN
     /\ G.ok /\ ReadsAs(ver, "g", sp, G.ps, p.g)
     /\ LET I == ReadMaps(h, G.next, Len(p.i), <<>>) IN
        /\ I.ok /\ \A k \in 1..Len(p.i) : ReadsAs(ver, "i", sp, I.ms[k], p.i[k])
        /\ LET O == ReadMaps(h, I.next, Len(p.o), <<>>) IN
           /\ O.ok /\ (\A k \in 1..Len(p.o) : ReadsAs(ver, "o", sp, O.ms[k], p.o[k]))
           /\ O.next = BLen(h)
=============================================================================
