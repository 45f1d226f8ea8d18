SPECIFICATION Spec
CONSTANTS
  Conditions = {"night", "ok", "half", "out", "comms"}
  MaxLen = 6
  MinLen = 2
  Emit = FALSE
INVARIANTS OutagesOK NightsBelong SubsystemOK Balance SameEnergy
CHECK_DEADLOCK FALSE
