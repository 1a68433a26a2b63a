SPECIFICATION Spec
CONSTANTS
  N = 3
  Kinds = {"cust", "comp"}
  Mode = "plain"
  MaxDeps = 1
INVARIANT SendSafe
INVARIANT DepsComplete
INVARIANT WaitsAcyclic
INVARIANT CoarseSend
INVARIANT NoSendAfterFailure
CHECK_DEADLOCK TRUE
