SPECIFICATION Spec
CONSTANTS
  MaxIn = 3
  MaxOut = 2
  Scripts = {"", "51", "00"}
  Wits = {"00", "0100", "0201510151"}
  Vers = {"02000000", "00000000"}
  Seqs = {"ffffffff"}
INVARIANTS EveryInput Once Written Reads NotTwo Emit
CHECK_DEADLOCK FALSE
