SPECIFICATION Spec
CONSTANTS
  Base = 4
  Depth = 5
  Emit = FALSE
INVARIANTS ContentKept OneOutcome NoDemandsNoRefusal
CHECK_DEADLOCK FALSE
