SPECIFICATION Spec
CONSTANTS
  Threads = 5
  Bufs = 12
  Cap = 4
  Calls = 8
  Depth = 2
  Record = TRUE
INVARIANTS Exclusive Stable ListOK Emit
CHECK_DEADLOCK FALSE
