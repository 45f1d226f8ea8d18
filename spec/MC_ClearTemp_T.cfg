SPECIFICATION Spec
CONSTANTS
  Longitudes = {0, 1, 7, 15, 37, 64, 105, 133, 180, 195, 222, 255, 301, 350, 359}
  Zones = {0, 1, 2, 3, 5, 8, 9, 11, 12, 13, 14}
  Days = {18300, 18320, 18628, 18687}
  Emit = FALSE
INVARIANTS ZoneFree Bounded Daily Eastward SmoothInside
CHECK_DEADLOCK FALSE
