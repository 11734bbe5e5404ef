SPECIFICATION Spec
CONSTANTS
  LEN = 4
CHECK_DEADLOCK FALSE
