SPECIFICATION Spec
INVARIANT Visible
CONSTANTS
  NKs = 2
  MaxOps = 3
  RESETS = {"modes", "inds", "rad"}
CHECK_DEADLOCK FALSE
