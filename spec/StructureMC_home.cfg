SPECIFICATION Spec
INVARIANTS Periodic
CONSTANTS
  MaxOps = 3
  HOME = TRUE
CHECK_DEADLOCK FALSE
