SPECIFICATION Spec
CONSTANTS NT = 4
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
