SPECIFICATION Spec
CONSTANTS
  TRANSPOSED = FALSE
  INPLACE = FALSE
INVARIANTS RightPoints
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
