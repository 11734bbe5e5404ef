SPECIFICATION Spec
CONSTANTS
  N = 5
  VMIN = 2
  PERPART = TRUE
INVARIANTS Same
CHECK_DEADLOCK FALSE
