SPECIFICATION Spec
INVARIANTS HoldsOwn OneResult SeesIsExact
CHECK_DEADLOCK FALSE
