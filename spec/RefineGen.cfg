INIT Init
NEXT Next
CONSTANTS N = 5 Emit = TRUE
CHECK_DEADLOCK FALSE
