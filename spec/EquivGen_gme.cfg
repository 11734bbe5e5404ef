SPECIFICATION Spec
CONSTANTS
  LEN = 7
  MODE = "gme"
CHECK_DEADLOCK FALSE
