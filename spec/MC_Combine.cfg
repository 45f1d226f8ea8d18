SPECIFICATION Spec
CONSTANTS
  Times = {1, 2}
  Names = {"poa_filter", "tcell_filter", "clearsky_filter", "ad_hoc_filter"}
  Emit = TRUE
INVARIANTS AllAgree NoSay
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
