-------------------------------- MODULE Tmpl ---------------------------------
(* What the script templates of MC_C16 and MC_C16T are made of.               *)
EXTENDS Final, Vals
PRE == "1111111111111111111111111111111111111111111111111111111111111111"
LONG == PRE \o "11"
OTH == "2222222222222222222222222222222222222222222222222222222222222222"
Sg(n) == "30440000000000" \o HexByte(n)
BADS == "304400000000ff"
H(e) == <<e, "a1" \o SubSeq(e \o PRE, 1, 62), "a2" \o SubSeq(e \o PRE, 1, 38), "a3" \o SubSeq(e \o PRE, 1, 38), "a4" \o SubSeq(e \o PRE, 1, 62)>>
Hp(k) == H(PRE)[k]
(* the image of the script may be that of a string of another length, which no script accepts *)
HLong == <<LONG, Hp(2), Hp(3), Hp(4), Hp(5)>>
PUSH(h) == HexByte(BLen(h)) \o h
(* minimal push of a positive number given as four little-endian bytes *)
NumOf4(h) == IF BSub(h, 1, 3) = "000000" THEN (IF ByteAt(h, 0) <= 16 THEN HexByte(80 + ByteAt(h, 0)) ELSE PUSH(IF ByteAt(h, 0) >= 128 THEN BSub(h, 0, 1) \o "00" ELSE BSub(h, 0, 1)))
             ELSE IF BSub(h, 2, 2) = "0000" THEN PUSH(IF ByteAt(h, 1) >= 128 THEN BSub(h, 0, 2) \o "00" ELSE BSub(h, 0, 2))
             ELSE IF BSub(h, 3, 1) = "00" THEN PUSH(BSub(h, 0, 3)) ELSE PUSH(h)
(* what is the transaction like where the script does not care *)
NoCtx == [ver |-> "02000000", seq |-> "", lock |-> "00000000", src |-> "fallback", after |-> "64000000", older |-> "0a000000"]
CtxsOf(isafter, isolder, Vers, Seqs, Locks, Srcs, Afters, Olders) ==
  IF ~isafter /\ ~isolder THEN {NoCtx}
  ELSE {c \in [ver : Vers, seq : Seqs, lock : Locks, src : Srcs, after : IF isafter THEN Afters ELSE {"64000000"}, older : IF isolder THEN Olders ELSE {"0a000000"}] :
         (isolder /\ ~isafter => c.lock = "00000000" /\ c.src = "fallback") /\ (isafter /\ ~isolder => c.ver = "02000000")}
XOf(ctx) == [ver |-> ctx.ver, lock |-> ctx.lock, seq |-> IF ctx.seq = "" THEN SEQMAX ELSE ctx.seq]
Nums(S) == LET RECURSIVE F(_) F(Q) == IF Q = {} THEN <<>> ELSE LET k == CHOOSE x \in Q : \A y \in Q : x <= y IN <<k>> \o F(Q \ {k}) IN F(S)
=============================================================================
