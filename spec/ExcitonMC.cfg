SPECIFICATION Spec
CONSTANTS
  N = 5
  VMIN = 2
  PERPART = FALSE
INVARIANTS Same Range Cover
CHECK_DEADLOCK FALSE
