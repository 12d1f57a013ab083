SPECIFICATION Spec
CONSTANTS
  EKinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "wit"}
  EUtxos = {"w", "nw", "both", "oob", "none"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "odd", "no"}
  ETys = {"", "01000000", "82000000", "83000000", "00000000"}
  Lists = {0, 2}
  TUtxos = {"w", "nw", "none"}
  TTys = {"", "00000000", "01000000", "02000000", "03000000", "81000000", "83000000", "04000000"}
  Internals = {TRUE, FALSE}
  Origins1 = {"none", "", "1", "12"}
  Origins2 = {"none", "1", "12"}
  Others = {TRUE, FALSE}
  Places = {1, 2}
  Signers = {"k13", "k2", "m1", "m123"}
  Steps = 2
INVARIANTS Idempotent Settled OrderFree OnlyListed Known Kept Emit
CHECK_DEADLOCK FALSE
