SPECIFICATION Spec
CONSTANTS
  MaxIn = 4
  Heights = {"", "00000000", "ff64cd1d", "05000000"}
  Times = {"", "0065cd1d", "ffffffff"}
  Fallbacks = {"", "ffffffff"}
INVARIANTS Declarative ErrorIffConflict OrderFree Grows Emit
CHECK_DEADLOCK FALSE
