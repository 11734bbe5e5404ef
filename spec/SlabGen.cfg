SPECIFICATION Spec
CONSTANTS
  LEN = 5
CHECK_DEADLOCK FALSE
