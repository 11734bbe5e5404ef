SPECIFICATION Spec
CONSTANTS
  EXTRA = 0
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
