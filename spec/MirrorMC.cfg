SPECIFICATION Spec
CONSTANTS
  ALLBOTH = FALSE
INVARIANTS Closed Partition
CHECK_DEADLOCK FALSE
