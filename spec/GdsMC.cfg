SPECIFICATION Spec
CONSTANTS
  KEEP = FALSE
  SKIP = FALSE
  MAXS = 2
  MAXL = 2
  NOPS = 7
INVARIANTS Exact Refused
CHECK_DEADLOCK FALSE
