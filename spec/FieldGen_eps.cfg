SPECIFICATION Spec
CONSTANTS
  LEN = 10
  MODE = "eps"
CHECK_DEADLOCK FALSE
