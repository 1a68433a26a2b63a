INIT GInit
NEXT GNext
CONSTANTS
  N = 3
  Kinds = {"cust", "comp"}
  Mode = "plain"
  MaxDeps = 2
CHECK_DEADLOCK FALSE
