SPECIFICATION Spec
CONSTANTS
  LEN = 7
  MODE = "pwe"
CHECK_DEADLOCK FALSE
