SPECIFICATION Spec
CONSTANTS
  LEN = 3
  KIND = "pwe"
CHECK_DEADLOCK FALSE
