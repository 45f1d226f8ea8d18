SPECIFICATION Spec
CONSTANTS
  Points = 4
  Models = {150, 400, 900}
  Ratios = {4, 8, 10, 13}
  MaxIter = 6
  Emit = TRUE
INVARIANTS SelfConsistent Recovered Between
PROPERTIES Ends
CHECK_DEADLOCK FALSE
