------------------------------ MODULE Create0 ------------------------------
(* The v0 creator: which transactions a PSBT can be made of, and what it then *)
(* holds.  A transaction is [v, lt, ins, outs] with, for each input, a        *)
(* scriptSig and a witness stack (consensus encoded).                         *)
EXTENDS Wire
NOWIT == "00"
Fault(s) == IF s[1] # "" THEN "scriptsig" ELSE IF s[2] # NOWIT THEN "witness" ELSE ""
RECURSIVE FirstFault(_, _)
FirstFault(S, k) == IF k > Len(S) THEN "" ELSE IF Fault(S[k]) # "" THEN Fault(S[k]) ELSE FirstFault(S, k + 1)
Unsigned(S) == FirstFault(S, 1) = ""
Created(t) == [g |-> {<<"unsignedtx", "", TxHex(t)>>}, i |-> [k \in 1..Len(t.ins) |-> {}], o |-> [k \in 1..Len(t.outs) |-> {}]]
Seps(n) == Cat([k \in 1..n |-> "00"])
CreatedHex(t) == MAGIC \o "0100" \o WithLen(TxHex(t)) \o "00" \o Seps(Len(t.ins)) \o Seps(Len(t.outs))
=============================================================================
