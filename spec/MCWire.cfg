SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes Shortest Canon
CHECK_DEADLOCK FALSE
