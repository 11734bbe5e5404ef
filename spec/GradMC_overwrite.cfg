SPECIFICATION Spec
CONSTANTS
  OVERWRITE = TRUE
  DETACH = FALSE
  NODES = 3
INVARIANTS True
CHECK_DEADLOCK FALSE
