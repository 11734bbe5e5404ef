SPECIFICATION Spec
CONSTANTS
  D = 10
  STEP = 1
  NM = 2
  SPEED = 1
  UPWARD = FALSE
INVARIANTS AllFound
CHECK_DEADLOCK FALSE
