SPECIFICATION Spec
CONSTANTS
  LEN = 6
CHECK_DEADLOCK FALSE
