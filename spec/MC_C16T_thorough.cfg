SPECIFICATION Spec
CONSTANTS
  Kinds = {"trkey", "trleaf", "tr2leaf", "trolder", "trafter", "trmulti", "trsha", "trpkh", "trdeep"}
  Vers = {"01000000", "02000000"}
  Seqs = {"", "ffffffff", "feffffff", "0a000000", "09000000", "0a004000", "0a000080"}
  Locks = {"00000000", "63000000", "64000000", "6465cd1d"}
  Afters = {"64000000", "6465cd1d"}
  Olders = {"0a000000", "0a004000"}
  Srcs = {"fallback", "req"}
  Rich = TRUE
INVARIANTS Agree Foreign Emit
CHECK_DEADLOCK FALSE
