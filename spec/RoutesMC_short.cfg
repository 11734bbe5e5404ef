SPECIFICATION Spec
CONSTANTS
  SHORT = TRUE
INVARIANTS Good
CHECK_DEADLOCK FALSE
