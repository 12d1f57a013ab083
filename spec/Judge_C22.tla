------------------------------ MODULE Judge_C22 ------------------------------
(* Recorded runs of the v0 finalizer and of the checking extractor.           *)
EXTENDS Fin0Check
Check(r) ==
  LET p == Abs(r.p) TAB == TabOf(r.tab) S == r.steps m == CheckFinStep(r, p, TAB, S[1]) IN
  IF m # "" THEN m
  ELSE IF TxHex(r.tx) # Val(p.g, "unsignedtx") THEN "oracle and PSBT disagree on the transaction"
  ELSE IF S[2].res = "panic" THEN "the consuming finalizer panicked: " \o S[2].panic
  ELSE First(<< Req(S[1].res = S[2].res /\ S[1].errs = S[2].errs /\ Abs(S[1].q) = Abs(S[2].q), "the consuming variant gives another result") >>)
Note(r) == PrintT("NOTE " \o r.op \o "-" \o r.steps[1].res \o (IF r.steps[1].res = "panic" THEN "" ELSE "-extract-" \o r.steps[1].ext.st))
Next == Step(LAMBDA r : IF Note(r) THEN Check(r) ELSE "")
==============================================================================
