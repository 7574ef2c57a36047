SPECIFICATION Spec
CONSTANTS
  W = 4
  Steps = 1
  Cap = 2
  Record = FALSE
INVARIANTS Deterministic Quiet NothingLeft
PROPERTY Terminates
CHECK_DEADLOCK FALSE
