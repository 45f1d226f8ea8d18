SPECIFICATION Spec
CONSTANTS
  Sites <- DeepSites
  Eots <- QuickEots
  Los <- QuickLos
  His <- QuickHis
  Step = 10
  Emit = FALSE
INVARIANTS InRange Advances Daily Share Monotone AtKnots
CHECK_DEADLOCK FALSE
