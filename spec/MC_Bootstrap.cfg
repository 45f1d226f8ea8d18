SPECIFICATION Spec
CONSTANTS
  Ns = {3, 4, 6, 7}
  Ls = {1, 2, 3}
  Emit = TRUE
INVARIANTS WellFormed Contiguous
CHECK_DEADLOCK FALSE
