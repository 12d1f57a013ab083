SPECIFICATION Spec
CONSTANTS
  V = 0
  Replicas = 3
  Edits = FALSE
  MaxKnow = 2
INVARIANTS NothingInvented NothingLost IdKept UtxoKept Determined Relation Symmetric Emit
CHECK_DEADLOCK FALSE
