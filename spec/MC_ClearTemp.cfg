SPECIFICATION Spec
CONSTANTS
  Longitudes = {0, 15, 37, 105, 180, 195, 255, 350}
  Zones = {0, 1, 5, 12, 13}
  Days = {18300, 18320, 18628, 18687}
  Emit = TRUE
INVARIANTS ZoneFree Bounded Daily Eastward SmoothInside
CHECK_DEADLOCK FALSE
