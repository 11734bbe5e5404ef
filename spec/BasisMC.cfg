SPECIFICATION Spec
INVARIANTS HasZero Inversion Complete SameForEveryBasis Accepts
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS NARROW = FALSE
