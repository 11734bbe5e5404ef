SPECIFICATION Spec
CONSTANTS
  LEN = 9
CHECK_DEADLOCK FALSE
