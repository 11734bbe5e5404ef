SPECIFICATION Spec
CONSTANTS
  CONJ = FALSE
  BIGS = TRUE
INVARIANTS Adjoint
CHECK_DEADLOCK FALSE
