------------------------------ MODULE Judge_C28 ------------------------------
(* Recorded creations of v0 PSBTs.                                            *)
EXTENDS JudgeBase, Create0
Check(r) ==
  IF r.res = "panic" THEN "creating a v0 PSBT panicked: " \o r.panic
  ELSE LET f == FirstFault(r.sigs, 1) IN
  IF r.res = "err" THEN IF f = "" THEN "an unsigned transaction is refused" ELSE Req(r.err = f, "refused for the wrong reason: " \o r.err)
  ELSE First(<< Req(f = "", "a transaction with a scriptSig or witness is accepted"),
                Req(r.tx2 = r.tx /\ r.sigs2 = r.sigs, "the PSBT holds another transaction"),
                Req(Abs(r.p) = Created(r.tx), "the PSBT holds something other than the transaction"),
                Req(r.ser = CreatedHex(r.tx), "the new PSBT is serialized in another way"),
                Req(r.back, "the new PSBT does not survive serialization"),
                Req(r.ext, "another transaction is extracted from the new PSBT") >>)
Note(r) == PrintT("NOTE " \o r.res)
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
=============================================================================
