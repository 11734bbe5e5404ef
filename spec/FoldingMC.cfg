SPECIFICATION Spec
CONSTANTS
  DROPEQUAL = FALSE
INVARIANTS Sorted Complete
CHECK_DEADLOCK FALSE
