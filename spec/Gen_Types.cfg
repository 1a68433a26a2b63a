SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
