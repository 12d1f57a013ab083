SPECIFICATION Spec
CONSTANTS
  Vers = {2}
  Sp = FALSE
  AnyOrder = FALSE
  Damage = 2
  Clean = TRUE
  Focus = {}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound EmitRound
CHECK_DEADLOCK FALSE
