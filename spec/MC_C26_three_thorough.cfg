SPECIFICATION Spec
CONSTANTS
  Parties = 3
  Setups = {"multi"}
  Moves = 4
  Closing = {1, 2}
  Reloads = FALSE
INVARIANTS NoLoss NoForgery SameIdEverywhere Combinable Converge Committed Enough OneEach FinishIff ReadyIff Emit
CHECK_DEADLOCK FALSE
