SPECIFICATION Spec
CONSTANTS
  LEN = 3
  KIND = "gme"
CHECK_DEADLOCK FALSE
