SPECIFICATION Spec
CONSTANTS
  Days = 3
  Fixed = 1
  Powers = {100, 500, 501, 800}
  Rs = {3}
  Emit = TRUE
INVARIANTS ScaleFree DayLocal NoFalse Plateaus
CHECK_DEADLOCK FALSE
