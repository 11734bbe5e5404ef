SPECIFICATION Spec
CONSTANTS
  MOVELAST = FALSE
  KEEP = TRUE
INVARIANTS Afresh
CHECK_DEADLOCK FALSE
