SPECIFICATION Spec
CONSTANTS
  W = 40
  Steps = 3
  Cap = 10
  Record = TRUE
INVARIANTS Deterministic Quiet Emit
CHECK_DEADLOCK FALSE
