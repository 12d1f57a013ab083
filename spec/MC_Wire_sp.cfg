SPECIFICATION Spec
CONSTANTS
  Vers = {2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 2
  Clean = FALSE
  Focus = {"ecdh", "dleq", "spinfo", "splabel"}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound Emit
CHECK_DEADLOCK FALSE
