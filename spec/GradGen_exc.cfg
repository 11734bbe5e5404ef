SPECIFICATION Spec
CONSTANTS
  LEN = 3
  KIND = "exc"
CHECK_DEADLOCK FALSE
