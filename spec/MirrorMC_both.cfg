SPECIFICATION Spec
CONSTANTS
  ALLBOTH = TRUE
INVARIANTS Partition
CHECK_DEADLOCK FALSE
