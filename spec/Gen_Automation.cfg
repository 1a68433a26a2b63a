SPECIFICATION Spec
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
CONSTANTS NArgs = 2
CONSTANTS NFrag = 2
