SPECIFICATION Spec
CONSTANTS
  FPs = {"adhoc", "sensorcs", "starve"}
  APs = {"none"}
  Freqs = {"2D"}
  CSs = {"A", "B"}
  Analyses <- QuickAnalyses
  Depth = 5
  Emit = FALSE
INVARIANTS FromARun Repeatable HistoryFree
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
