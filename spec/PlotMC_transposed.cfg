SPECIFICATION Spec
CONSTANTS
  TRANSPOSED = TRUE
  INPLACE = FALSE
INVARIANTS RightPoints
CHECK_DEADLOCK FALSE
