------------------------------- MODULE MC_C03 -------------------------------
(* A hostile writer: somewhere in a PSBT it writes a length or a count that     *)
(* claims up to 2^64-1 of something, and then sends little or nothing.          *)
EXTENDS WireModel
CONSTANTS Claims, Afters
VARIABLES site, claim, after, w
cvars == <<vars, site, claim, after, w>>
G2Pairs(ic, oc) == Cat(<<PairHex(<<"02", "", "02000000">>), PairHex(<<"04", "", ic>>), PairHex(<<"05", "", oc>>), PairHex(<<"fb", "", "02000000">>)>>) \o "00"
G0Pairs(u) == PairHex(<<"00", "", u>>) \o "00"
InReq == PairHex(<<"0e", "", TXID(1)>>) \o PairHex(<<"0f", "", LE32(1)>>)
OutReq == PairHex(<<"03", "", AMT(1)>>)
HeadI(v) == MAGIC \o IF v = 2 THEN G2Pairs("01", "01") \o InReq ELSE G0Pairs(UTX)
HeadO(v) == MAGIC \o (IF v = 2 THEN G2Pairs("00", "01") ELSE G0Pairs("02000000" \o "00" \o "01" \o AMT(1) \o WithLen("") \o "00000000")) \o (IF v = 2 THEN OutReq ELSE "")
SomeTx(a, b) == "02000000" \o a \o b
XONLY == BFrom(PK(1), 1)
(* each site: the bytes, with the claim c and what follows it z *)
Site(s, v, c, z) ==
  CASE s = "global key" -> MAGIC \o c \o z
    [] s = "global value" -> MAGIC \o "01f0" \o c \o z
    [] s = "input count" -> MAGIC \o (IF v = 2 THEN G2Pairs(c, "00") ELSE G0Pairs("02000000" \o c \o z)) \o z
    [] s = "output count" -> MAGIC \o (IF v = 2 THEN G2Pairs("00", c) ELSE G0Pairs("02000000" \o "00" \o c \o z)) \o z
    [] s = "both counts" -> MAGIC \o (IF v = 2 THEN G2Pairs(c, c) ELSE G0Pairs(c \o c)) \o z
    [] s = "input key" -> HeadI(v) \o c \o z
    [] s = "input value" -> HeadI(v) \o "01f0" \o c \o z
    [] s = "output key" -> HeadO(v) \o c \o z
    [] s = "output value" -> HeadO(v) \o "01f0" \o c \o z
    [] s = "script of the output" -> HeadO(v) \o "0104" \o c \o z
    [] s = "inputs of the UTXO tx" -> HeadI(v) \o PairHex(<<"00", "", SomeTx(c, z)>>)
    [] s = "outputs of the UTXO tx" -> HeadI(v) \o PairHex(<<"00", "", SomeTx("01" \o TXID(1) \o LE32(1) \o "00" \o "fdffffff", c \o z)>>)
    [] s = "segwit UTXO tx" -> HeadI(v) \o PairHex(<<"00", "", SomeTx("0001" \o "01" \o TXID(1) \o LE32(1) \o "00" \o "fdffffff" \o "01" \o AMT(1) \o "00", c \o z)>>)
    [] s = "script of the UTXO tx" -> HeadI(v) \o PairHex(<<"00", "", SomeTx("01" \o TXID(1) \o LE32(1), c \o z)>>)
    [] s = "script of the UTXO" -> HeadI(v) \o PairHex(<<"01", "", AMT(1) \o c \o z>>)
    [] s = "witness items" -> HeadI(v) \o PairHex(<<"08", "", c \o z>>)
    [] s = "witness item" -> HeadI(v) \o PairHex(<<"08", "", "01" \o c \o z>>)
    [] s = "leaf hashes" -> HeadI(v) \o PairHex(<<"16", XONLY, c \o z>>)
    [] s = "leaf hashes of the output" -> HeadO(v) \o PairHex(<<"07", XONLY, c \o z>>)
    [] s = "tree leaf script" -> HeadO(v) \o PairHex(<<"06", "", "00c0" \o c \o z>>)
    [] s = "proprietary prefix" -> MAGIC \o WithLen("fc" \o c \o z) \o "00"
    [] s = "proprietary prefix of the input" -> HeadI(v) \o WithLen("fc" \o c \o z) \o "00"
SITES == {"global key", "global value", "input count", "output count", "both counts", "input key", "input value", "output key", "output value",
          "script of the output", "inputs of the UTXO tx", "outputs of the UTXO tx", "segwit UTXO tx", "script of the UTXO tx", "script of the UTXO",
          "witness items", "witness item", "leaf hashes", "leaf hashes of the output", "tree leaf script", "proprietary prefix", "proprietary prefix of the input"}
Claim(n) == CASE n = 1 -> "fc" [] n = 2 -> "fdffff" [] n = 3 -> "fe00004000" [] n = 4 -> "feffffff01" [] n = 5 -> "fe00000002" [] n = 6 -> "feffffff7f"
              [] n = 7 -> "feffffffff" [] n = 8 -> "ff0000000001000000" [] n = 9 -> "ffffffffffffffff7f" [] n = 10 -> "ffffffffffffffffff" [] n = 11 -> "fe40420f00"
              [] n = 12 -> "ff00000000000000ff" [] n = 13 -> "fe00093d00" [] n = 14 -> "fe55555555"
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Zeros(n \div 2) IN h \o h ELSE "00" \o Zeros(n - 1)
CInit == Init /\ site \in SITES /\ claim \in Claims /\ after \in Afters /\ w \in {0, 2}
CNext == UNCHANGED cvars
CSpec == CInit /\ [][CNext]_cvars
Hostile == Site(site, w, Claim(claim), Zeros(after))
(* nobody has to take any of these at its word *)
Refused == Decode(ORC, w, Sp, Hostile).st = "bad"
EmitClaim == PrintT("CASE " \o ToJson([hex |-> Hostile]))
=============================================================================
