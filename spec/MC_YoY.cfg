SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Starts = {16858, 18320, 17986}
  Gaps = {1, 365, 366, 373, 374}
  Values = {100, 80, 99999}
  Emit = TRUE
INVARIANTS Paired NoneMissed SameDay Used ScaleFree NoRepair
CHECK_DEADLOCK FALSE
