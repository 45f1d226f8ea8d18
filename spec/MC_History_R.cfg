SPECIFICATION Spec
CONSTANTS
  FPs = {"sensorcs"}
  APs = {}
  Freqs = {}
  CSs = {"A", "B"}
  Analyses <- NoAnalyses
  Depth = 4
  Emit = TRUE
INVARIANTS FromARun Repeatable HistoryFree
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
