SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Family = "merge"
 Emit = TRUE
INVARIANT Guarantees
