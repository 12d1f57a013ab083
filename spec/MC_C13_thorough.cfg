SPECIFICATION Spec
CONSTANTS
  Kinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "tr", "wit"}
  Utxos = {"w", "nw", "both", "oob", "none"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "odd", "no"}
  Tys = {"", "03000000", "82000000", "04000000"}
  Lists = {0, 1, 2}
  Provs = {{}, {1}, {2}, {1, 2, 3}}
  Two = TRUE
INVARIANTS OrderFree OneDigest OnlyListed SignOrFail FlagsIff Emit
CHECK_DEADLOCK FALSE
