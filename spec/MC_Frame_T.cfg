SPECIFICATION Spec
CONSTANTS
  Entries = {1, 2, 3}
  Objs = {1}
  Versions = {0, 1}
  Depth = 5
  Emit = TRUE
INVARIANTS OnlyCallerWrites Functional
PROPERTIES CallsFrame
CHECK_DEADLOCK FALSE
