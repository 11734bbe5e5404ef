SPECIFICATION Spec
CONSTANTS
  MOVELAST = FALSE
  KEEP = FALSE
INVARIANTS InBounds Belong Returned Afresh
CHECK_DEADLOCK FALSE
