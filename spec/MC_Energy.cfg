SPECIFICATION Spec
CONSTANTS
  MaxSamples = 4
  Gaps = {1, 2, 4}
  Values = {0, 6, 99999}
  GapLimits = {0, 2, 3}
  Widths = {1, 2, 3, 5}
  Emit = TRUE
INVARIANTS Conserved Merges Removes NoInvention GapMissing Covers
CHECK_DEADLOCK FALSE
