SPECIFICATION Spec
CONSTANTS
  LEN = 8
  MODE = "exc"
CHECK_DEADLOCK FALSE
