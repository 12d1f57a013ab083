SPECIFICATION Spec
CONSTANTS
  Kinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "tr", "wit"}
  Utxos = {"w", "nw", "badid", "oob", "none"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "odd", "no"}
  SecondKinds = {"bare", "sh", "wsh", "shwsh"}
  N = 2
INVARIANTS Scan Complete Sound Emit
CHECK_DEADLOCK FALSE
