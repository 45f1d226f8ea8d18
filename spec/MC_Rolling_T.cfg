SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Gaps = {1, 3}
  Values = {64, 40, 99999}
  Windows = {4, 6}
  Emit = FALSE
INVARIANTS ScaleFree Mirror Widen Local Sparse
CHECK_DEADLOCK FALSE
