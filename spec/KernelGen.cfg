SPECIFICATION Spec
CONSTANTS
  LEN = 24
CHECK_DEADLOCK FALSE
