SPECIFICATION Spec
CONSTANTS NR = 3
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
