SPECIFICATION Spec
INVARIANTS SameMap SameHeight Ratio CellKept
CONSTANTS MaxOps = 3
CHECK_DEADLOCK FALSE
