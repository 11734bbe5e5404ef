SPECIFICATION Spec
CONSTANTS
  LEN = 22
  KIND = "build"
CHECK_DEADLOCK FALSE
