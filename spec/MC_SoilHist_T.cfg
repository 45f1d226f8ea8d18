SPECIFICATION Spec
CONSTANTS
  Full = 3
  MaxIntervals = 5
  Loss = 2
  Methods = {"perfect_clean", "random_clean", "half_norm_clean"}
  Emit = FALSE
INVARIANTS Accepted NeverAboveClean Refused
CHECK_DEADLOCK FALSE
