SPECIFICATION Spec
CONSTANTS
  Vers = {0}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 1
  Clean = FALSE
  Focus = {}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound Emit
CHECK_DEADLOCK FALSE
