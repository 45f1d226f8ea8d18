SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Starts = {16858, 18319, 17986, 18262}
  Gaps = {1, 7, 8, 9, 357, 358, 364, 365, 366, 373, 374}
  Values = {100, 80, 99999}
  Emit = FALSE
INVARIANTS Paired NoneMissed SameDay Used ScaleFree NoRepair
CHECK_DEADLOCK FALSE
