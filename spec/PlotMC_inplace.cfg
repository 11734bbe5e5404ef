SPECIFICATION Spec
CONSTANTS
  TRANSPOSED = FALSE
  INPLACE = TRUE
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
