SPECIFICATION Spec
CONSTANTS NOps = 3
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
