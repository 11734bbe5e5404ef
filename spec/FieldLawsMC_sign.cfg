SPECIFICATION Spec
CONSTANT WRONG = 1
INVARIANT NoDiv
CHECK_DEADLOCK FALSE
