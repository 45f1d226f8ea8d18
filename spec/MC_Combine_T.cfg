SPECIFICATION Spec
CONSTANTS
  Times = {1, 2}
  Names = {"poa_filter", "tcell_filter", "sensor_clearsky_filter", "clearsky_filter", "ad_hoc_filter"}
  Emit = FALSE
INVARIANTS AllAgree NoSay
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
