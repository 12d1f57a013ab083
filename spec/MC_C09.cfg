SPECIFICATION Spec
CONSTANTS
  N = 2
  Types = {"", "01000000", "02000000", "03000000", "81000000", "82000000", "83000000", "00000000"}
  Starts = {0, 3, 7, 9, 2, 255}
INVARIANTS Bitwise OrderFree Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
