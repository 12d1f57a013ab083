SPECIFICATION Spec
CONSTANTS
  Kinds = {"pk", "pkh", "wpkh", "shwpkh", "shpk", "shpkh", "shmulti", "shsorted", "shold", "wshpk", "wshpkh", "wshmulti", "wshsorted", "wshold", "wshor", "shwshpk", "shwshmulti", "shwshsorted", "shwshor", "bare", "tr", "tr1", "tr2", "tr3", "trself", "trtwice", "tr7"}
  Seconds = {"pk", "pkh", "wpkh", "shwpkh", "shpk", "shpkh", "shmulti", "shsorted", "shold", "wshpk", "wshpkh", "wshmulti", "wshsorted", "wshold", "wshor", "shwshpk", "shwshmulti", "shwshsorted", "shwshor", "bare", "tr", "tr1", "tr2", "tr3", "trself", "trtwice", "tr7"}
  Utxos = {"nw", "w", "both", "none", "oob", "oobboth", "amount", "script", "swap", "badid", "badboth"}
  Pres = {0, 63}
  OpNames = {"in", "out", "uin", "uout"}
  N = 1
INVARIANTS Idempotent Consistent Signable AllLeaves Kept Right Emit
CHECK_DEADLOCK FALSE
