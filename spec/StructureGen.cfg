SPECIFICATION Spec
CONSTANTS
  LEN = 16
  NPTS = 14
CHECK_DEADLOCK FALSE
