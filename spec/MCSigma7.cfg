SPECIFICATION Spec
CONSTANTS
  Q = 5
  GG = 1
  HH = 3
  Kinds = {"gspfs", "eq", "cons"}
INVARIANTS Completeness FalseFails SpecialSoundness Simulation
CHECK_DEADLOCK FALSE
