SPECIFICATION Spec
CONSTANTS
  SHARED = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
