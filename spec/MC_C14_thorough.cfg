SPECIFICATION Spec
CONSTANTS
  Masters = {0, 1, 2}
  Depths = {0, 1}
  KeyNos = {0, 1, 5}
  MaxLen = 3
INVARIANTS Unsupported Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
