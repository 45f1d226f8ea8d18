SPECIFICATION Spec
CONSTANTS
  Vals = {0, 2, 3, 5}
  MaxLen = 7
  Gaps = {1, 3}
  MaxBars = 4
INVARIANTS Mass BarsInOrder AtLeastOneBar Within Half Recent Flat
CHECK_DEADLOCK FALSE
