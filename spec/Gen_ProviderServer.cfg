SPECIFICATION GenSpec
CONSTANT Locked = TRUE
CONSTANT Forget = TRUE
CONSTANT Abandon = TRUE
CONSTANT AtOnce = TRUE
CONSTANT NQ = 2
CONSTANT NR = 2
INVARIANT Alone
INVARIANT OwnMonitor
INVARIANT OwnAnswer
INVARIANT Settled
INVARIANT Emit
CHECK_DEADLOCK FALSE
