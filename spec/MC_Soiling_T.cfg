SPECIFICATION Spec
CONSTANTS
  MaxDays = 7
  MinDays = 6
  Values = {3, 5, 99999}
  Wet = {0}
  W = 1
  Emit = FALSE
INVARIANTS Partition Boundaries Coarser GapsSplit Rates
CHECK_DEADLOCK FALSE
