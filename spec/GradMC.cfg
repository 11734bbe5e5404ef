SPECIFICATION Spec
CONSTANTS
  OVERWRITE = FALSE
  DETACH = FALSE
  NODES = 3
INVARIANTS True
CHECK_DEADLOCK FALSE
