SPECIFICATION Spec
CONSTRAINT Small
INVARIANT OneQuadrant
CHECK_DEADLOCK FALSE
