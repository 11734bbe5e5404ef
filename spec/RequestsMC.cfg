SPECIFICATION Spec
CONSTANTS
  STICKY = FALSE
  LATE = FALSE
  NOPS = 6
INVARIANTS OnlyItsOwn Results
CHECK_DEADLOCK FALSE
