SPECIFICATION Spec
INVARIANTS NoPhase
CHECK_DEADLOCK FALSE
