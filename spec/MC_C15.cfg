SPECIFICATION Spec
CONSTANTS
  Parties = 2
  Kinds = {"wpkh", "baremulti"}
  Kinds2 = {"shwpkh"}
  Tys = {"", "83000000"}
  Seqs = {"", "00000000", "fdffffff"}
  Locks = {"", "h", "t", "ht"}
  Fallbacks = {"", "05000000"}
  Sets = {"01004000"}
  MaxSets = 1
  Moves = 1
INVARIANTS NoLoss NoForgery SameIdEverywhere Combinable Converge Committed Enough OneEach OneTx ExtractedIs SequenceDefault Emit
CHECK_DEADLOCK FALSE
