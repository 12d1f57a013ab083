SPECIFICATION Spec
CONSTANTS
  Masters = {0, 1}
  Depths = {0, 1}
  KeyNos = {0, 1}
  MaxLen = 2
INVARIANTS Unsupported Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
