SPECIFICATION Spec
CONSTANTS
  Nonces = 5
  Width = 4
INVARIANTS Outcome Outcome2 NoPartial
PROPERTY Terminates
CHECK_DEADLOCK FALSE
