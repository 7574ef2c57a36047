SPECIFICATION Spec
CONSTANTS
  Q = 3
  GG = 1
  HH = 2
  P = 2
  Rows = 2
  Record = FALSE
  Len0 = 0
INVARIANTS Sums Audits Differs
CHECK_DEADLOCK FALSE
