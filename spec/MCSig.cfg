CONSTANT CurveName = "toy13"
SPECIFICATION Spec
INVARIANTS Complete Strict Recovery Recovered Der
CHECK_DEADLOCK FALSE
