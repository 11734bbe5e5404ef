SPECIFICATION Spec
CONSTANTS
  LEN = 10
  MODE = "gme"
CHECK_DEADLOCK FALSE
