SPECIFICATION Spec
CONSTANTS
  Base = 4
  Depth = 3
  Emit = TRUE
INVARIANTS ContentKept OneOutcome NoDemandsNoRefusal
CHECK_DEADLOCK FALSE
