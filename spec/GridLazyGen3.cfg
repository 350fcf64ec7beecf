CONSTANTS
 N = 3
 P = 2
 MaxPreempt = 1
 GEN = TRUE
INIT Init
NEXT Next
INVARIANTS LockFree NoDeadlock
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
