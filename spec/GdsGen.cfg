SPECIFICATION Spec
CONSTANTS
  LEN = 12
CHECK_DEADLOCK FALSE
