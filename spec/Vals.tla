-------------------------------- MODULE Vals --------------------------------
(* Concrete values used by the design models when they emit cases.           *)
EXTENDS Psbt
PK(n) == CASE n = 1 -> "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
           [] n = 2 -> "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"
           [] n = 3 -> "02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9"
TXID(n) == Cat([k \in 1..32 |-> HexByte((n * 17 + k) % 256)])
LE32(n) == HexByte(n % 256) \o HexByte((n \div 256) % 256) \o HexByte((n \div 65536) % 256) \o HexByte(n \div 16777216)
SPK(n) == "0014" \o Cat([k \in 1..20 |-> HexByte(n)])
AMT(n) == LE32(n) \o "00000000"
GlobalOf(nin, nout, extra) ==
  {<<"version", "", "02000000">>, <<"incount", "", VI(nin)>>, <<"outcount", "", VI(nout)>>} \cup extra
  \cup (IF Has(extra, "txver") THEN {} ELSE {<<"txver", "", "02000000">>})
  \cup (IF Has(extra, "mod") THEN {} ELSE {<<"mod", "", "00">>})
InputOf(n, extra) == {<<"txid", "", TXID(n)>>, <<"vout", "", LE32(n)>>} \cup extra
OutputOf(n, extra) == {<<"amount", "", AMT(1000 * n)>>, <<"script", "", SPK(n)>>} \cup extra
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqOf(S \ {x})
Opt(f, v) == IF v = "" THEN {} ELSE {<<f, "", v>>}
=============================================================================
