SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Closed Holds Half2 Rects
CHECK_DEADLOCK FALSE
