SPECIFICATION Spec
CONSTANTS
  Kinds = {"trkey", "trleaf", "tr2leaf", "trolder", "trafter", "trmulti", "trsha", "trpkh", "trdeep"}
  Vers = {"01000000", "02000000"}
  Seqs = {"", "feffffff", "0a000000"}
  Locks = {"63000000", "64000000"}
  Afters = {"64000000"}
  Olders = {"0a000000"}
  Srcs = {"fallback"}
  Rich = FALSE
INVARIANTS Agree Foreign Emit
CHECK_DEADLOCK FALSE
