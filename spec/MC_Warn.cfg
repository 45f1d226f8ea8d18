SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Dists = {1, 2, 3, 5}
  Emit = TRUE
INVARIANTS RegularQuiet Threshold Limit OneMajority ZoneOnly HalfQuiet Separate CleanQuiet SensorLess NotBoth
CHECK_DEADLOCK FALSE
