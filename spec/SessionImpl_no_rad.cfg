SPECIFICATION Spec
INVARIANT Visible
CONSTANTS
  NKs = 2
  MaxOps = 3
  RESETS = {"modes", "inds", "eps"}
CHECK_DEADLOCK FALSE
