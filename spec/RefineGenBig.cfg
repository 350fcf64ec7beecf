INIT Init
NEXT Next
CONSTANTS N = 6 Emit = TRUE
CHECK_DEADLOCK FALSE
