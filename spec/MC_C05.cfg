SPECIFICATION TSpec
CONSTANTS
  Vers = {0, 2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 0
  Clean = TRUE
  Focus = {}
  Faults = 1
INVARIANTS Faithful Canonical Unique EmitText
CHECK_DEADLOCK FALSE
