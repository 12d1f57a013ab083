SPECIFICATION Spec
CONSTANTS
  Kinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "tr", "wit"}
  Utxos = {"w", "nw", "both", "oob", "none"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "odd", "no"}
  Tys = {"", "82000000", "00000000"}
  Lists = {0, 2}
  Provs = {{}, {1}, {1, 2, 3}}
  Two = FALSE
INVARIANTS OrderFree OneDigest OnlyListed SignOrFail FlagsIff Emit
CHECK_DEADLOCK FALSE
