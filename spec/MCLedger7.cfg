SPECIFICATION Spec
CONSTANTS
  Q = 7
  GG = 1
  HH = 3
  P = 1
  Rows = 3
  Record = FALSE
  Len0 = 0
INVARIANTS Sums Audits Differs
CHECK_DEADLOCK FALSE
