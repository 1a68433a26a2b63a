SPECIFICATION Spec
CONSTANTS
  Show = TRUE
  Len1 = 2
  Len2 = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
