SPECIFICATION TraceSpec
CONSTANT Locked = TRUE
CONSTANT Forget = TRUE
CONSTANT Abandon = TRUE
CONSTANT AtOnce = TRUE
CHECK_DEADLOCK FALSE
