SPECIFICATION Spec
CONSTANTS
  N = 4
  QMAX = 60
  FOLD = TRUE
INVARIANTS Current LowerHasMore DarkBelowLightCone Name
CHECK_DEADLOCK FALSE
