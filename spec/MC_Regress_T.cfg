SPECIFICATION Spec
CONSTANTS
  MaxPoints = 6
  Gaps = {1, 3}
  Values = {1, 2, 5, 99999}
  Emit = FALSE
INVARIANTS Optimal ScaleFree DropFree Kendall KendallExact
CHECK_DEADLOCK FALSE
