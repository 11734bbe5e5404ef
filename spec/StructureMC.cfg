SPECIFICATION Spec
INVARIANTS Tiles Stacked WellsInside InBounds Periodic
PROPERTIES RejectedSame GrowOnly
CONSTANTS
  MaxOps = 3
  HOME = FALSE
CHECK_DEADLOCK FALSE
