SPECIFICATION Spec
CONSTANTS
  Parties = 2
  Setups = {"multi", "two", "nested", "legacy", "tap", "tapmulti", "mixed"}
  Moves = 4
  Closing = {1}
  Reloads = TRUE
INVARIANTS NoLoss NoForgery OneEach SameUnsigned Committed Combinable Converge Earned StillKnown FinalSpreads ReadyIff Emit
PROPERTIES FinalStays
CHECK_DEADLOCK FALSE
