SPECIFICATION Spec
CONSTANTS
  WINDOW = FALSE
INVARIANTS Right Prefix
CHECK_DEADLOCK FALSE
