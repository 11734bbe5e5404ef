SPECIFICATION Spec
CONSTANTS
  KEEP = FALSE
  SKIP = TRUE
  MAXS = 2
  MAXL = 2
  NOPS = 7
INVARIANT Refused
CHECK_DEADLOCK FALSE
