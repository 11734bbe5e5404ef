SPECIFICATION Spec
CONSTANT WRONG = 0
INVARIANTS NoDiv Twice Adjoint
CHECK_DEADLOCK FALSE
