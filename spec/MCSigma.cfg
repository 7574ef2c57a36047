SPECIFICATION Spec
CONSTANTS
  Q = 3
  GG = 1
  HH = 2
  Kinds = {"gspfs", "eq", "disj", "cons", "abc"}
INVARIANTS Completeness FalseFails SpecialSoundness Simulation
CHECK_DEADLOCK FALSE
