SPECIFICATION Spec
CONSTANTS
  OVERWRITE = FALSE
  DETACH = TRUE
  NODES = 3
INVARIANTS True
CHECK_DEADLOCK FALSE
