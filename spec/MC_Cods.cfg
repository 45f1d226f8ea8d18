SPECIFICATION Spec
CONSTANTS
  MaxIt = 9
  N = 12
  Emit = TRUE
INVARIANTS FirstCycle Bounded Phases Restart Relaxes Collapsed
CHECK_DEADLOCK FALSE
