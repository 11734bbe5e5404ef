SPECIFICATION Spec
INVARIANT Visible
CONSTANTS
  NKs = 2
  MaxOps = 3
  RESETS = {"inds", "eps", "rad"}
CHECK_DEADLOCK FALSE
