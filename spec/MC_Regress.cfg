SPECIFICATION Spec
CONSTANTS
  MaxPoints = 5
  Gaps = {1, 3}
  Values = {1, 2, 5, 99999}
  Emit = TRUE
INVARIANTS Optimal ScaleFree DropFree Kendall KendallExact
CHECK_DEADLOCK FALSE
