SPECIFICATION Spec
CONSTANTS
  Days = 2
  Powers = {100, 900, 910, 960}
  Emit = TRUE
INVARIANTS Told NearTop Alike Heard ScaleFree Shape
CHECK_DEADLOCK FALSE
