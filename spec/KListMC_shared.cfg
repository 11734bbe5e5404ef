SPECIFICATION Spec
CONSTANTS
  SHARED = TRUE
INVARIANTS Right
CHECK_DEADLOCK FALSE
