SPECIFICATION Spec
CONSTANTS
  V = 0
  Replicas = 2
  Edits = TRUE
  MaxKnow = 2
INVARIANTS NothingInvented NothingLost IdKept UtxoKept Determined Relation Symmetric Emit
CHECK_DEADLOCK FALSE
