SPECIFICATION Spec
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
CONSTANTS NOps = 2 Show = TRUE
