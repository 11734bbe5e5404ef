SPECIFICATION Spec
INVARIANTS Unmoved
CONSTANTS MaxOps = 1
CHECK_DEADLOCK FALSE
