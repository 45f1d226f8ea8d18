SPECIFICATION Spec
CONSTANTS
  Sites <- QuickSites
  Eots <- QuickEots
  Los <- QuickLos
  His <- QuickHis
  Step = 20
  Emit = TRUE
INVARIANTS InRange Advances Daily Share Monotone AtKnots
CHECK_DEADLOCK FALSE
