SPECIFICATION Spec
CONSTANTS
  CONJ = TRUE
  BIGS = TRUE
INVARIANTS Hermitian Adjoint Star InterpLaws
CHECK_DEADLOCK FALSE
