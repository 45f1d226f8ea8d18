SPECIFICATION Spec
CONSTANTS
  Points = 9
  Patterns <- P1
  Emit = TRUE
INVARIANTS Scale Calendar Ordered
CHECK_DEADLOCK FALSE
