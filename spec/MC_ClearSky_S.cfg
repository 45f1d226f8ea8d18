SPECIFICATION Spec
CONSTANTS
  Last = 6
  Levels = {0, 3, 7}
  Steps = 0
  Emit = FALSE
INVARIANTS Conserved Bounded First Merged
CHECK_DEADLOCK FALSE
