SPECIFICATION Spec
CONSTANTS
  MaxSamples = 5
  Gaps = {1, 2, 3}
  Values = {0, 5}
  GapLimits = {0, 1, 2, 3}
  Emit = FALSE
INVARIANTS Faithful NoInvention Between Monotone Idempotent
PROPERTY Local
CHECK_DEADLOCK FALSE
