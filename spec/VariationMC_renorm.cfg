SPECIFICATION Spec
CONSTANTS
  RENORM = TRUE
  R = 1
INVARIANTS Laws
CHECK_DEADLOCK FALSE
