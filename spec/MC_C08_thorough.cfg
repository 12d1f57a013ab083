SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS Counts Contents UpdaterLock Emit
PROPERTY OpenForAdding
CHECK_DEADLOCK FALSE
