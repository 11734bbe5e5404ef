SPECIFICATION Spec
CONSTANTS
  STICKY = TRUE
  LATE = FALSE
  NOPS = 6
INVARIANT OnlyItsOwn
CHECK_DEADLOCK FALSE
