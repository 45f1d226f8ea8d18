SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Values = {66666, 0, 1, 2, 7, 99999, 88888, 77777}
  Bounds = {0, 2, 7, 88888}
  Emit = TRUE
INVARIANTS MissingNeverKept Strict WideningKeeps RobustZero RobustScale RobustBounded InsolationKeepsMax ClipDropsMax
PROPERTY Pointwise
CHECK_DEADLOCK FALSE
