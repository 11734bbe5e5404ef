SPECIFICATION Spec
CONSTANTS
  N = 4
  QMAX = 60
  FOLD = FALSE
INVARIANTS DarkBelowLightCone
CHECK_DEADLOCK FALSE
