SPECIFICATION Spec
CONSTANTS
  V = 2
  Replicas = 2
  Edits = TRUE
  MaxKnow = 2
INVARIANTS NothingInvented NothingLost IdKept UtxoKept Determined Relation Symmetric Emit
CHECK_DEADLOCK FALSE
