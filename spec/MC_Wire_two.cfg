SPECIFICATION Spec
CONSTANTS
  Vers = {2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 2
  Clean = FALSE
  Focus = {"xpub", "unk", "prop", "mod", "fallback", "psig", "bip32", "sequence", "mintime", "minheight", "fwit", "redeem", "taptree"}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound Emit
CHECK_DEADLOCK FALSE
