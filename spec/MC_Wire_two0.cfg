SPECIFICATION Spec
CONSTANTS
  Vers = {0}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 2
  Clean = FALSE
  Focus = {"xpub", "unk", "prop", "psig", "bip32", "sighash", "fwit", "redeem", "taptree", "tapbip32"}
INVARIANTS Stepwise OneVersion RoundTrip NoPrefix Sound Emit
CHECK_DEADLOCK FALSE
