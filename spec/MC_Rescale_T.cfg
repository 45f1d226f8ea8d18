SPECIFICATION Spec
CONSTANTS
  Points = 4
  Models = {150, 400, 900}
  Ratios = {4, 7, 8, 10, 12, 13}
  MaxIter = 6
  Emit = FALSE
INVARIANTS SelfConsistent Recovered Between
PROPERTIES Ends
CHECK_DEADLOCK FALSE
