SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Heights = {"", "05000000", "ff64cd1d"}
  Times = {"", "0065cd1d", "ffffffff"}
INVARIANTS IdMoves IdByTx Emit
CHECK_DEADLOCK FALSE
