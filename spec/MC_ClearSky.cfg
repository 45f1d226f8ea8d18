SPECIFICATION Spec
CONSTANTS
  Last = 0
  Levels = {0}
  Steps = 4
  Emit = TRUE
INVARIANTS First Kept Temperatures
CHECK_DEADLOCK FALSE
