SPECIFICATION Spec
CONSTANTS
  LEN = 10
  KIND = "solver"
CHECK_DEADLOCK FALSE
