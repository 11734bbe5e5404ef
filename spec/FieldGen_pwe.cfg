SPECIFICATION Spec
CONSTANTS
  LEN = 10
  MODE = "pwe"
CHECK_DEADLOCK FALSE
