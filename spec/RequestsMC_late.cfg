SPECIFICATION Spec
CONSTANTS
  STICKY = FALSE
  LATE = TRUE
  NOPS = 6
INVARIANT Results
CHECK_DEADLOCK FALSE
