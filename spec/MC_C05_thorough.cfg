SPECIFICATION TSpec
CONSTANTS
  Vers = {0, 2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 0
  Clean = TRUE
  Focus = {}
  Faults = 2
INVARIANTS Faithful Canonical Unique EmitText
CHECK_DEADLOCK FALSE
