SPECIFICATION Spec
CONSTANTS
  MaxPoints = 4
  Gaps = {1, 2, 5}
  Values = {2, 5, 99999}
  Weights = {0, 1, 3}
  Emit = TRUE
INVARIANTS Bounded MissingIff Scale Absent Const
CHECK_DEADLOCK FALSE
