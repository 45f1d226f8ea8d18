SPECIFICATION Spec
CONSTANTS
  Full = 4
  MaxIntervals = 4
  Loss = 2
  Methods = {"perfect_clean", "random_clean", "half_norm_clean"}
  Emit = TRUE
INVARIANTS Accepted NeverAboveClean Refused
CHECK_DEADLOCK FALSE
