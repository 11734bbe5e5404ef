SPECIFICATION Spec
CONSTANTS
  RENORM = FALSE
  R = 1
INVARIANTS Laws
CHECK_DEADLOCK FALSE
