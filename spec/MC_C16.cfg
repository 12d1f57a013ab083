SPECIFICATION Spec
CONSTANTS
  Kinds = {"pk", "pkh", "wpkh", "shwpkh", "shpk", "wshpk", "wshmulti", "shmulti", "baremulti", "shwshmulti", "wsholder", "sholder", "wshafter", "shafter", "wshor", "wshthresh", "wshsha", "wshripemd", "wshh160", "wshh256", "wshmall", "shpkh", "wshpkh", "shor", "wshthro", "wshps", "wshpr", "wshp1", "wshp2"}
  Vers = {"01000000", "02000000"}
  Seqs = {"", "ffffffff", "feffffff", "09000000", "0a000000", "0a004000", "09004000", "0a000080"}
  Locks = {"00000000", "63000000", "64000000", "6465cd1d"}
  Afters = {"64000000", "6465cd1d"}
  Olders = {"0a000000", "0a004000"}
  Srcs = {"fallback", "req"}
  MaxStack = 3
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
