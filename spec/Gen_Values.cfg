SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
CONSTANTS Mode = "mc"
CONSTANTS Wide = FALSE
INVARIANTS Guarantees
