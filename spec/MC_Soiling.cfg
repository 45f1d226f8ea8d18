SPECIFICATION Spec
CONSTANTS
  MaxDays = 6
  MinDays = 5
  Values = {3, 5, 99999}
  Wet = {0, 1}
  W = 1
  Emit = TRUE
INVARIANTS Partition Boundaries Coarser GapsSplit Rates
CHECK_DEADLOCK FALSE
