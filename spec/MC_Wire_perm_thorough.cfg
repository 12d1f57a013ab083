SPECIFICATION Spec
CONSTANTS
  Vers = {2}
  Sp = TRUE
  AnyOrder = TRUE
  Damage = 1
  Clean = FALSE
  Focus = {}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound Emit
CHECK_DEADLOCK FALSE
