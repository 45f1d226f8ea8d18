SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Gaps = {1, 3}
  Values = {64, 40, 99999}
  Windows = {4}
  Emit = TRUE
INVARIANTS ScaleFree Mirror Widen Local Sparse
CHECK_DEADLOCK FALSE
