SPECIFICATION Spec
CONSTANTS
  MaxIn = 3
  Heights = {"", "00000000", "ff64cd1d"}
  Times = {"", "0065cd1d", "ffffffff"}
  Fallbacks = {"", "07000000", "ffffffff"}
INVARIANTS Declarative ErrorIffConflict OrderFree Grows Emit
CHECK_DEADLOCK FALSE
