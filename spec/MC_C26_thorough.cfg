SPECIFICATION Spec
CONSTANTS
  Parties = 2
  Setups = {"multi", "two", "nested", "legacy"}
  Moves = 5
  Closing = {1}
  Reloads = TRUE
INVARIANTS NoLoss NoForgery SameIdEverywhere Combinable Converge Committed Enough OneEach FinishIff ReadyIff Emit
CHECK_DEADLOCK FALSE
