SPECIFICATION Spec
CONSTANTS
  Anchors = {17896, 18315, 18625, 18993}
  Lengths = {3, 40}
  Bounds <- B3
  MaxIntervals = 3
  Emit = FALSE
INVARIANTS DaysConserved Mixture
CHECK_DEADLOCK FALSE
