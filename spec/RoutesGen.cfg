SPECIFICATION Spec
CONSTANTS
  LEN = 7
CHECK_DEADLOCK FALSE
