SPECIFICATION Spec
CONSTANTS
  LASTD = TRUE
INVARIANTS Same
CHECK_DEADLOCK FALSE
