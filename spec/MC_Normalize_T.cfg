SPECIFICATION Spec
CONSTANTS
  WP = {1, 2}
  WM = {1, 2, 3}
  Offsets = {0, 1}
  Values = {0, 4, 99999}
  NP_ = 4
  NM_ = 4
  Emit = TRUE
INVARIANTS Scales Unity Support
CHECK_DEADLOCK FALSE
