SPECIFICATION Spec
CONSTANTS
  EKinds = {"bare", "sh", "wpkh", "wsh", "shwpkh", "shwsh", "wit"}
  EUtxos = {"w", "nw", "oob"}
  Reds = {"ok", "odd", "no"}
  Wscs = {"ok", "no"}
  ETys = {"", "83000000", "00000000"}
  Lists = {2}
  TUtxos = {"w", "none"}
  TTys = {"", "01000000", "03000000", "82000000", "04000000"}
  Internals = {TRUE, FALSE}
  Origins1 = {"none", "", "1", "12"}
  Origins2 = {"none", "1", "2"}
  Others = {TRUE, FALSE}
  Places = {1, 2}
  Signers = {"k13", "m1", "m123"}
  Steps = 2
INVARIANTS Idempotent Settled OrderFree OnlyListed Known Kept Emit
CHECK_DEADLOCK FALSE
