SPECIFICATION Spec
CONSTANTS
  Anchors = {17896, 18315, 18625, 18993}
  Lengths = {3, 20, 45}
  Bounds <- B3
  MaxIntervals = 2
  Emit = TRUE
INVARIANTS DaysConserved Mixture
CHECK_DEADLOCK FALSE
