SPECIFICATION Spec
CONSTANTS
  LEN = 7
  MODE = "exc"
CHECK_DEADLOCK FALSE
