SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Counts Contents UpdaterLock Emit
PROPERTY OpenForAdding
CHECK_DEADLOCK FALSE
