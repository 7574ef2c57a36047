SPECIFICATION Spec
CONSTANTS
  Q = 8
  GG = 1
  HH = 3
  P = 3
  Rows = 5
  Record = TRUE
  Len0 = 22
INVARIANTS Emit
CHECK_DEADLOCK FALSE
