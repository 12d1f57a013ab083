SPECIFICATION Spec
CONSTANTS
  Parties = 3
  Setups = {"multi", "legacy"}
  Moves = 3
  Closing = {1}
  Reloads = FALSE
INVARIANTS NoLoss NoForgery SameIdEverywhere Combinable Converge Committed Enough OneEach FinishIff ReadyIff Emit
CHECK_DEADLOCK FALSE
