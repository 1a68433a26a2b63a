SPECIFICATION Spec
CONSTANTS NReq = 5
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
