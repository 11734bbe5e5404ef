SPECIFICATION Spec
CONSTANTS
  SHORT = FALSE
INVARIANTS Inside Good
CHECK_DEADLOCK FALSE
