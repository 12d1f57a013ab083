SPECIFICATION Spec
CONSTANTS
  N = 3
  Types = {"", "02000000", "03000000", "81000000", "82000000", "83000000"}
  Starts = {0, 3, 7, 1}
INVARIANTS Bitwise OrderFree Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
