SPECIFICATION Spec
CONSTANTS
  NOBJ = 2
  LEN = 12
CHECK_DEADLOCK FALSE
