CONSTANTS
  Fails <- P03Fails
  Lanes = 12
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
