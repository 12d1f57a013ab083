SPECIFICATION Spec
CONSTANTS
  Vers = {2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 3
  Clean = TRUE
  Focus = {"unk", "prop", "mod", "mintime", "minheight", "redeem", "taptree"}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound EmitRound
CHECK_DEADLOCK FALSE
