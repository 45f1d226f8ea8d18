SPECIFICATION Spec
CONSTANTS
  Conditions = {"night", "ok", "half", "halfcomms", "out", "comms", "reset"}
  MaxLen = 5
  MinLen = 2
  Emit = TRUE
INVARIANTS OutagesOK NightsBelong SubsystemOK Balance SameEnergy
CHECK_DEADLOCK FALSE
