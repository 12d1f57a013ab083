SPECIFICATION Spec
CONSTANTS
  Kinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "tr", "wit"}
  Utxos = {"w", "nw", "both", "oob", "badid", "none"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "odd", "no"}
  SecondKinds = {}
  N = 1
INVARIANTS Scan Complete Sound Emit
CHECK_DEADLOCK FALSE
