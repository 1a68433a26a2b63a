INIT Init
NEXT Next
CONSTANTS
  Shape = "rings"
  K = 3
  MaxOut = 2
CHECK_DEADLOCK FALSE
