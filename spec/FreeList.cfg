SPECIFICATION Spec
CONSTANTS
  Threads = 3
  Bufs = 6
  Cap = 2
  Calls = 2
  Depth = 2
  Record = FALSE
INVARIANTS Exclusive Stable ListOK
CHECK_DEADLOCK FALSE
