SPECIFICATION Spec
CONSTANTS
  Chars = {"0", "1", "x", "f", "F", "g", "+"}
  MaxLen = 4
  Words = {"0x0x1", "0X1", "100000000", "0x100000000", "ffffffff", "0xFFFFFFFF", "00000000000000001", "0x0000000000000081", "SIGHASH_RESERVED", "SIGHASH_ALL|SIGHASH_NONE", "SIGHASH_DEFAULT|SIGHASH_ANYONECANPAY", "SIGHASH_ANYONECANPAY", "-1", "0x-1", " 1", "1 ", "1h", "dddddddd", "0xddddddddd"}
INVARIANTS RightInverse LeftInverse Prefix NeverTwo Emit
CHECK_DEADLOCK FALSE
