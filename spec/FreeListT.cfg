SPECIFICATION Spec
CONSTANTS
  Threads = 3
  Bufs = 7
  Cap = 3
  Calls = 3
  Depth = 2
  Record = FALSE
INVARIANTS Exclusive Stable ListOK
CHECK_DEADLOCK FALSE
