SPECIFICATION Spec
CONSTANTS
  KEEP = TRUE
  SKIP = FALSE
  MAXS = 2
  MAXL = 2
  NOPS = 7
INVARIANT Exact
CHECK_DEADLOCK FALSE
