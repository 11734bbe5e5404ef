SPECIFICATION Spec
CONSTANTS
  WINDOW = TRUE
INVARIANTS Right
CHECK_DEADLOCK FALSE
