------------------------------- MODULE Script -------------------------------
(* Bitcoin Script: execution of scriptSig, scriptPubKey, redeem and witness   *)
(* scripts and tapscript leaves, with the consensus rules and the policy      *)
(* rules that matter to a PSBT finalizer (clean stack, null dummy, null fail, *)
(* minimal IF, push-only scriptSig).                                          *)
(* T.h: <<elem, sha256, ripemd160, hash160, hash256>>, T.sig: <<algo, code,   *)
(* key, sig>> for every valid signature, T.commit: <<spk, leaf, control>> for *)
(* every valid taproot commitment.  X: [ver, lock, seq] of the spending input.*)
EXTENDS Psbt

(* ---- parsing ---- *)
LEInt(h, i, n) == IF n = 1 THEN ByteAt(h, i) ELSE IF n = 2 THEN ByteAt(h, i) + 256 * ByteAt(h, i + 1) ELSE 100000000
RECURSIVE OpsAt(_, _)
OpsAt(s, i) ==
  IF i >= BLen(s) THEN <<>>
  ELSE LET b == ByteAt(s, i)
           w == IF b = 76 THEN 1 ELSE IF b = 77 THEN 2 ELSE IF b = 78 THEN 4 ELSE 0
           n == IF b <= 75 THEN b ELSE IF w > 0 /\ i + w < BLen(s) + 0 THEN LEInt(s, i + 1, w) ELSE 0
           short == (b <= 78) /\ (i + 1 + w + n > BLen(s))
       IN IF b > 78 THEN <<<<b, "">>>> \o OpsAt(s, i + 1)
          ELSE IF short THEN <<<<-1, "">>>>
          ELSE <<<<0, BSub(s, i + 1 + w, n)>>>> \o OpsAt(s, i + 1 + w + n)
Ops(s) == OpsAt(s, 0)
PushVal(op) == IF op[1] = 0 THEN op[2] ELSE IF op[1] = 79 THEN "81" ELSE IF op[1] >= 81 /\ op[1] <= 96 THEN HexByte(op[1] - 80) ELSE "!"
IsPush(op) == op[1] = 0 \/ op[1] = 79 \/ (op[1] >= 81 /\ op[1] <= 96)
PushOnly(s) == LET o == Ops(s) IN \A k \in 1..Len(o) : IsPush(o[k])
Pushes(s) == LET o == Ops(s) IN [k \in 1..Len(o) |-> PushVal(o[k])]

(* ---- numbers and truth ---- *)
IsTrue(h) == \E k \in 1..BLen(h) : ByteAt(h, k - 1) # 0 /\ ~(k = BLen(h) /\ ByteAt(h, k - 1) = 128)
NumOk(h) == BLen(h) <= 4
RECURSIVE UInt(_, _)
UInt(h, k) == IF k >= BLen(h) THEN 0 ELSE ByteAt(h, k) + 256 * UInt(h, k + 1)
Num(h) == IF h = "" THEN 0
          ELSE LET n == BLen(h) top == ByteAt(h, n - 1) IN
               IF top >= 128 THEN 0 - UInt(BSub(h, 0, n - 1) \o HexByte(top - 128), 0) ELSE UInt(h, 0)
RECURSIVE LEHex(_)
LEHex(n) == IF n = 0 THEN "" ELSE HexByte(n % 256) \o LEHex(n \div 256)
NumHex(n) == IF n = 0 THEN ""
             ELSE LET a == LEHex(IF n < 0 THEN -n ELSE n) top == ByteAt(a, BLen(a) - 1) IN
                  IF top >= 128 THEN a \o (IF n < 0 THEN "80" ELSE "00")
                  ELSE IF n < 0 THEN BSub(a, 0, BLen(a) - 1) \o HexByte(top + 128) ELSE a
BoolHex(b) == IF b THEN "01" ELSE ""
(* operand of CLTV and CSV: up to five bytes, not negative; as four bytes, or "" if it cannot be one *)
LockArg(h) == LET n == BLen(h) IN
  IF n > 5 \/ (n > 0 /\ ByteAt(h, n - 1) >= 128) THEN ""
  ELSE LET z == h \o SubSeq("0000000000", 1, 10 - Len(h)) IN IF ByteAt(z, 4) # 0 THEN "" ELSE BSub(z, 0, 4)
(* ---- lock times ---- *)
IsTime(l) == ~Lt32(U32(l), TIME0)
AfterOk(n, X) == /\ X.seq # "ffffffff" /\ IsTime(n) = IsTime(X.lock) /\ Le32(U32(n), U32(X.lock))
VerAtLeast2(v) == ~(v \in {"00000000", "01000000"})
Disabled(l) == ByteAt(l, 3) >= 128
Blocks512(l) == (ByteAt(l, 2) \div 64) % 2 = 1
OlderOk(n, X) == \/ Disabled(n)
                 \/ /\ VerAtLeast2(X.ver) /\ ~Disabled(X.seq) /\ Blocks512(n) = Blocks512(X.seq)
                    /\ LEInt(n, 0, 2) <= LEInt(X.seq, 0, 2)
(* ---- oracle lookups ---- *)
NOHASH == <<"", "?", "?", "?", "?">>
HashRow(T, e) == IF \E r \in T.h : r[1] = e THEN CHOOSE r \in T.h : r[1] = e ELSE NOHASH
SigOk(T, algo, code, k, s) == <<algo, code, k, s>> \in T.sig

(* ---- execution ---- *)
(* S: ok, st (top last), alt, ifs.  E: algo, code, T, X                        *)
Bad(S) == [S EXCEPT !.ok = FALSE]
Tp(S, k) == S.st[Len(S.st) - k]
Below(S, n) == SubSeq(S.st, 1, Len(S.st) - n)
Rep(S, n, xs) == [S EXCEPT !.st = Below(S, n) \o xs]
Has_(S, n) == Len(S.st) >= n
RECURSIVE MultiOk(_, _, _)
(* signatures and keys in order, each key used once *)
MultiOk(ks, ss, E) == IF ss = <<>> THEN TRUE ELSE IF Len(ks) < Len(ss) THEN FALSE
                      ELSE IF SigOk(E.T, E.algo, E.code, Head(ks), Head(ss)) THEN MultiOk(Tail(ks), Tail(ss), E) ELSE MultiOk(Tail(ks), ss, E)
Multi(S, E) ==
  IF E.algo = "leaf" \/ ~Has_(S, 1) \/ ~NumOk(Tp(S, 0)) THEN Bad(S) ELSE
  LET n == Num(Tp(S, 0)) IN
  IF n < 0 \/ n > 20 \/ ~Has_(S, n + 2) \/ ~NumOk(Tp(S, n + 1)) THEN Bad(S) ELSE
  LET m == Num(Tp(S, n + 1)) IN
  IF m < 0 \/ m > n \/ ~Has_(S, n + m + 3) THEN Bad(S) ELSE
  LET L == Len(S.st)
      ks == SubSeq(S.st, L - n, L - 1)
      ss == SubSeq(S.st, L - n - m - 1, L - n - 2)
      dummy == Tp(S, n + m + 2)
      ok == MultiOk(ks, ss, E)
  IN IF dummy # "" \/ (~ok /\ \E k \in 1..m : ss[k] # "") THEN Bad(S) ELSE Rep(S, n + m + 3, <<BoolHex(ok)>>)
CheckSigOp(S, E) ==
  IF ~Has_(S, 2) THEN Bad(S)
  ELSE LET k == Tp(S, 0) s == Tp(S, 1) ok == s # "" /\ SigOk(E.T, E.algo, E.code, k, s) IN
       IF s # "" /\ ~ok THEN Bad(S) ELSE Rep(S, 2, <<BoolHex(ok)>>)
VerifyOp(S) == IF ~S.ok \/ ~Has_(S, 1) \/ ~IsTrue(Tp(S, 0)) THEN Bad(S) ELSE Rep(S, 1, <<>>)
Un(S, n, xs) == IF ~Has_(S, n) THEN Bad(S) ELSE Rep(S, n, xs)
Bin(S, F(_, _)) == IF ~Has_(S, 2) \/ ~NumOk(Tp(S, 0)) \/ ~NumOk(Tp(S, 1)) THEN Bad(S) ELSE Rep(S, 2, <<F(Num(Tp(S, 1)), Num(Tp(S, 0)))>>)
BinB(S, F(_, _)) == Bin(S, LAMBDA a, b : BoolHex(F(a, b)))
Una(S, F(_)) == IF ~Has_(S, 1) \/ ~NumOk(Tp(S, 0)) THEN Bad(S) ELSE Rep(S, 1, <<F(Num(Tp(S, 0)))>>)
Hash(S, E, k) == IF ~Has_(S, 1) THEN Bad(S) ELSE Rep(S, 1, <<HashRow(E.T, Tp(S, 0))[k]>>)
Live(S) == \A k \in 1..Len(S.ifs) : S.ifs[k]
IfOp(S, E, want) ==
  IF ~Live(S) THEN [S EXCEPT !.ifs = Append(@, FALSE)]
  ELSE IF ~Has_(S, 1) \/ (E.algo # "legacy" /\ Tp(S, 0) \notin {"", "01"}) THEN Bad(S)
  ELSE [Rep(S, 1, <<>>) EXCEPT !.ifs = Append(@, IsTrue(Tp(S, 0)) = want)]
Exec(op, S, E) ==
  LET o == op[1] IN
  IF o = -1 THEN Bad(S)
  ELSE IF o = 99 THEN IfOp(S, E, TRUE) ELSE IF o = 100 THEN IfOp(S, E, FALSE)
  ELSE IF o = 103 THEN (IF S.ifs = <<>> THEN Bad(S) ELSE [S EXCEPT !.ifs[Len(S.ifs)] = ~@])
  ELSE IF o = 104 THEN (IF S.ifs = <<>> THEN Bad(S) ELSE [S EXCEPT !.ifs = SubSeq(@, 1, Len(@) - 1)])
  ELSE IF ~Live(S) THEN S
  ELSE IF IsPush(op) THEN [S EXCEPT !.st = Append(@, PushVal(op))]
  ELSE CASE o = 97 -> S
    [] o = 105 -> VerifyOp(S)
    [] o = 107 -> IF ~Has_(S, 1) THEN Bad(S) ELSE [Rep(S, 1, <<>>) EXCEPT !.alt = Append(@, Tp(S, 0))]
    [] o = 108 -> IF S.alt = <<>> THEN Bad(S) ELSE [S EXCEPT !.st = Append(@, S.alt[Len(S.alt)]), !.alt = SubSeq(@, 1, Len(@) - 1)]
    [] o = 109 -> Un(S, 2, <<>>)
    [] o = 110 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 0, <<Tp(S, 1), Tp(S, 0)>>)
    [] o = 115 -> IF ~Has_(S, 1) THEN Bad(S) ELSE IF IsTrue(Tp(S, 0)) THEN Rep(S, 0, <<Tp(S, 0)>>) ELSE S
    [] o = 116 -> [S EXCEPT !.st = Append(@, NumHex(Len(@)))]
    [] o = 117 -> Un(S, 1, <<>>)
    [] o = 118 -> IF ~Has_(S, 1) THEN Bad(S) ELSE Rep(S, 0, <<Tp(S, 0)>>)
    [] o = 119 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 2, <<Tp(S, 0)>>)
    [] o = 120 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 0, <<Tp(S, 1)>>)
    [] o = 123 -> IF ~Has_(S, 3) THEN Bad(S) ELSE Rep(S, 3, <<Tp(S, 1), Tp(S, 0), Tp(S, 2)>>)
    [] o = 124 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 2, <<Tp(S, 0), Tp(S, 1)>>)
    [] o = 125 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 2, <<Tp(S, 0), Tp(S, 1), Tp(S, 0)>>)
    [] o = 130 -> IF ~Has_(S, 1) THEN Bad(S) ELSE Rep(S, 0, <<NumHex(BLen(Tp(S, 0)))>>)
    [] o = 135 -> IF ~Has_(S, 2) THEN Bad(S) ELSE Rep(S, 2, <<BoolHex(Tp(S, 0) = Tp(S, 1))>>)
    [] o = 136 -> IF ~Has_(S, 2) \/ Tp(S, 0) # Tp(S, 1) THEN Bad(S) ELSE Rep(S, 2, <<>>)
    [] o = 139 -> Una(S, LAMBDA a : NumHex(a + 1))
    [] o = 140 -> Una(S, LAMBDA a : NumHex(a - 1))
    [] o = 145 -> Una(S, LAMBDA a : BoolHex(a = 0))
    [] o = 146 -> Una(S, LAMBDA a : BoolHex(a # 0))
    [] o = 147 -> Bin(S, LAMBDA a, b : NumHex(a + b))
    [] o = 148 -> Bin(S, LAMBDA a, b : NumHex(a - b))
    [] o = 154 -> BinB(S, LAMBDA a, b : a # 0 /\ b # 0)
    [] o = 155 -> BinB(S, LAMBDA a, b : a # 0 \/ b # 0)
    [] o = 156 -> BinB(S, LAMBDA a, b : a = b)
    [] o = 157 -> VerifyOp(BinB(S, LAMBDA a, b : a = b))
    [] o = 158 -> BinB(S, LAMBDA a, b : a # b)
    [] o = 159 -> BinB(S, LAMBDA a, b : a < b)
    [] o = 160 -> BinB(S, LAMBDA a, b : a > b)
    [] o = 161 -> BinB(S, LAMBDA a, b : a <= b)
    [] o = 162 -> BinB(S, LAMBDA a, b : a >= b)
    [] o = 166 -> Hash(S, E, 3)
    [] o = 168 -> Hash(S, E, 2)
    [] o = 169 -> Hash(S, E, 4)
    [] o = 170 -> Hash(S, E, 5)
    [] o = 172 -> CheckSigOp(S, E)
    [] o = 173 -> VerifyOp(CheckSigOp(S, E))
    [] o = 174 -> Multi(S, E)
    [] o = 175 -> VerifyOp(Multi(S, E))
    [] o = 177 -> IF ~Has_(S, 1) \/ LockArg(Tp(S, 0)) = "" THEN Bad(S) ELSE IF AfterOk(LockArg(Tp(S, 0)), E.X) THEN S ELSE Bad(S)
    [] o = 178 -> IF ~Has_(S, 1) \/ LockArg(Tp(S, 0)) = "" THEN Bad(S) ELSE IF OlderOk(LockArg(Tp(S, 0)), E.X) THEN S ELSE Bad(S)
    [] o = 186 -> IF E.algo # "leaf" \/ ~Has_(S, 3) \/ ~NumOk(Tp(S, 1)) THEN Bad(S)
                  ELSE LET k == Tp(S, 0) n == Num(Tp(S, 1)) s == Tp(S, 2) ok == s # "" /\ SigOk(E.T, E.algo, E.code, k, s) IN
                       IF s # "" /\ ~ok THEN Bad(S) ELSE Rep(S, 3, <<NumHex(IF ok THEN n + 1 ELSE n)>>)
    [] OTHER -> Bad(S)
RECURSIVE RunOps(_, _, _)
RunOps(os, S, E) == IF ~S.ok \/ os = <<>> THEN S ELSE RunOps(Tail(os), Exec(Head(os), S, E), E)
Start(st) == [ok |-> TRUE, st |-> st, alt |-> <<>>, ifs |-> <<>>]
(* the script, parsed into os, succeeds and leaves exactly one true element *)
RunsOps(os, script, stack, algo, T, X) ==
  LET S == RunOps(os, Start(stack), [algo |-> algo, code |-> script, T |-> T, X |-> X])
  IN S.ok /\ S.ifs = <<>> /\ Len(S.st) = 1 /\ IsTrue(S.st[1])
Runs(script, stack, algo, T, X) == RunsOps(Ops(script), script, stack, algo, T, X)

(* ---- spending ---- *)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last_(s) == s[Len(s)]
Program(s) == BFrom(s, 2)
WitnessRuns(prog, wit, T, X) ==
  IF IsP2WPKH(prog) THEN Len(wit) = 2 /\ Runs("76a914" \o Program(prog) \o "88ac", wit, "v0", T, X)
  ELSE IF IsP2WSH(prog) THEN /\ wit # <<>> /\ HashRow(T, Last_(wit))[2] = Program(prog)
                             /\ Runs(Last_(wit), Front(wit), "v0", T, X)
  ELSE IF IsP2TR(prog) THEN
       IF Len(wit) = 1 THEN <<"key", "", Program(prog), wit[1]>> \in T.sig
       ELSE /\ Len(wit) >= 2 /\ ~StartsWith(Last_(wit), "50")
            /\ <<prog, wit[Len(wit) - 1], Last_(wit)>> \in T.commit
            /\ StartsWith(Last_(wit), "c0") \/ StartsWith(Last_(wit), "c1")
            /\ Runs(wit[Len(wit) - 1], Front(Front(wit)), "leaf", T, X)
  ELSE FALSE
(* Does (scriptSig, witness) satisfy the spent script? *)
Spends(spk, ssig, wit, T, X) ==
  IF IsP2WPKH(spk) \/ IsP2WSH(spk) \/ IsP2TR(spk) THEN ssig = "" /\ WitnessRuns(spk, wit, T, X)
  ELSE IF ~PushOnly(ssig) THEN FALSE
  ELSE LET st == Pushes(ssig) IN
       IF IsP2SH(spk) THEN
         /\ st # <<>> /\ HashRow(T, Last_(st))[4] = BSub(spk, 2, 20)
         /\ LET redeem == Last_(st) IN
            IF IsWitnessProgram(redeem) THEN Len(st) = 1 /\ WitnessRuns(redeem, wit, T, X)
            ELSE wit = <<>> /\ Runs(redeem, Front(st), "legacy", T, X)
       ELSE wit = <<>> /\ Runs(spk, st, "legacy", T, X)
(* ---- witness field: count, then items ---- *)
RECURSIVE Items(_, _)
Items(h, i) == IF i >= BLen(h) THEN <<>>
               ELSE LET b == ByteAt(h, i) s == IF b < 253 THEN 1 ELSE 3 n == IF b < 253 THEN b ELSE LEInt(h, i + 1, 2)
                    IN <<BSub(h, i + s, n)>> \o Items(h, i + s + n)
WitOf(h) == IF h = "" THEN <<>> ELSE Items(h, VarIntSize(h, 0))

(* ---- policies: what a script demands, as generated ---- *)
(* A.have: <<"pk", key>> with a valid signature, <<hash function, image>> with a known 32-byte preimage, *)
(* <<"tapkey", "">> and <<"leaf", leaf hash and key>> with a valid signature                                *)
RECURSIVE Sat(_, _)
Sat(pol, A) ==
  CASE pol[1] \in {"pk", "sha256", "hash256", "ripemd", "hash160", "tapkey", "leaf"} -> <<pol[1], pol[2]>> \in A.have
    [] pol[1] = "after" -> AfterOk(pol[2], A.X)
    [] pol[1] = "older" -> OlderOk(pol[2], A.X)
    [] pol[1] = "thr" -> LET n == Len(pol[3]) IN Cardinality({k \in 1..n : Sat(pol[3][k], A)}) >= pol[2]
    [] pol[1] = "yes" -> TRUE
    [] OTHER -> FALSE
=============================================================================
