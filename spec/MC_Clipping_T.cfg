SPECIFICATION Spec
CONSTANTS
  Days = 3
  Fixed = 1
  Powers = {0, 60, 500, 501, 510, 800}
  Rs = {2, 3}
  Emit = FALSE
INVARIANTS ScaleFree DayLocal NoFalse Plateaus
CHECK_DEADLOCK FALSE
