SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Fps = {"01020304", "01020305", "00000000"}
INVARIANTS Rule Symmetric Assoc Emit
CHECK_DEADLOCK FALSE
