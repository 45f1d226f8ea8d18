SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  Dists = {1, 2, 3, 5}
  Emit = FALSE
INVARIANTS RegularQuiet Threshold Limit OneMajority ZoneOnly HalfQuiet Separate CleanQuiet SensorLess NotBoth
CHECK_DEADLOCK FALSE
