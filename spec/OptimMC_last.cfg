SPECIFICATION Spec
CONSTANTS
  MOVELAST = TRUE
  KEEP = FALSE
INVARIANTS Returned
CHECK_DEADLOCK FALSE
