SPECIFICATION CSpec
CONSTANTS
  Vers = {2}
  Sp = TRUE
  AnyOrder = FALSE
  Damage = 0
  Clean = TRUE
  Focus = {}
  Claims = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
  Afters = {0, 1, 200}
INVARIANTS Refused EmitClaim
CHECK_DEADLOCK FALSE
