SPECIFICATION Spec
CONSTANTS
  MaxIt = 13
  N = 16
  Emit = FALSE
INVARIANTS FirstCycle Bounded Phases Restart Relaxes Collapsed
CHECK_DEADLOCK FALSE
