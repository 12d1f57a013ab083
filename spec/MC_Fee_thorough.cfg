SPECIFICATION Spec
CONSTANTS
  MaxIn = 3
  MaxOut = 2
  Kinds = {"nw", "both", "none", "oob", "far"}
  Amts = {"0000000000000000", "e803000000000000", "ffffffffffffffff", "0000000000000080", "0000000000000100"}
  OutAmtsC = {"0000000000000080", "0000000000000000", "e803000000000000", "ffffffffffffffff"}
  Fins = {"both", "sig", "wit", "legacy", "none"}
  Bounds = TRUE
INVARIANTS Exact Spent RateOk Emit
CHECK_DEADLOCK FALSE
