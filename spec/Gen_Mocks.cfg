SPECIFICATION Spec
CONSTANTS NR = 2
NA = 2
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
