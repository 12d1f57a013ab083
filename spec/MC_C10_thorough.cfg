SPECIFICATION Spec
CONSTANTS
  V = 2
  Replicas = 3
  Edits = FALSE
  MaxKnow = 1
INVARIANTS NothingInvented NothingLost IdKept UtxoKept Determined Relation Symmetric Emit
CHECK_DEADLOCK FALSE
