SPECIFICATION Spec
CONSTANTS
  LASTD = FALSE
INVARIANTS Same Stable Joint
CHECK_DEADLOCK FALSE
