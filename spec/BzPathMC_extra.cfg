SPECIFICATION Spec
CONSTANTS
  EXTRA = 1
INVARIANTS Agree
CHECK_DEADLOCK FALSE
