SPECIFICATION Spec
CONSTANTS
  W = 5
  Steps = 2
  Cap = 2
  Record = FALSE
INVARIANTS Deterministic Quiet NothingLeft
PROPERTY Terminates
CHECK_DEADLOCK FALSE
