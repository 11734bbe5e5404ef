SPECIFICATION Spec
CONSTANTS
  D = 10
  STEP = 1
  NM = 2
  SPEED = 1
  UPWARD = TRUE
INVARIANTS Monotone NodesCount AllFound NumberedByNodes
CHECK_DEADLOCK FALSE
