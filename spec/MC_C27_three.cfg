SPECIFICATION Spec
CONSTANTS
  Parties = 3
  Setups = {"multi", "tapmulti"}
  Moves = 3
  Closing = {1}
  Reloads = FALSE
INVARIANTS NoLoss NoForgery OneEach SameUnsigned Committed Combinable Converge Earned StillKnown FinalSpreads ReadyIff Emit
PROPERTIES FinalStays
CHECK_DEADLOCK FALSE
