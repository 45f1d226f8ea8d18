SPECIFICATION Spec
CONSTANTS
  Good = {"g1", "g2", "g3", "g4"}
  Bad = {"b1", "b2"}
  Values = {"v1", "v2"}
  Emit = FALSE
INVARIANTS Documented
PROPERTIES RefusedUnchanged
CHECK_DEADLOCK FALSE
