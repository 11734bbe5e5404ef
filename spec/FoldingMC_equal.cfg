SPECIFICATION Spec
CONSTANTS
  DROPEQUAL = TRUE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
