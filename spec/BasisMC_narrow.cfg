SPECIFICATION Spec
INVARIANTS Complete
CONSTANTS NARROW = TRUE
CHECK_DEADLOCK FALSE
