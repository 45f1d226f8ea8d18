SPECIFICATION Spec
CONSTANTS
  Good = {"g1", "g2"}
  Bad = {"b1"}
  Values = {"v1", "v2"}
  Emit = TRUE
INVARIANTS Documented
PROPERTIES RefusedUnchanged
CHECK_DEADLOCK FALSE
