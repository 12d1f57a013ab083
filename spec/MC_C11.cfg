SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Fps = {"01020304", "01020305"}
INVARIANTS Rule Symmetric Assoc Emit
CHECK_DEADLOCK FALSE
