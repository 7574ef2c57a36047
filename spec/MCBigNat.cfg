SPECIFICATION Spec
INVARIANTS Small Large Hashes
CHECK_DEADLOCK FALSE
