SPECIFICATION Spec
CONSTANTS
  Vers = {0}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 2
  Clean = TRUE
  Focus = {}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound EmitRound
CHECK_DEADLOCK FALSE
