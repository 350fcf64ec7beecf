CONSTANTS
 N = 3
 P = 2
 MaxPreempt = 0
 GEN = FALSE
SPECIFICATION Spec
VIEW view
INVARIANTS LockFree NoDeadlock
PROPERTY Ends
CHECK_DEADLOCK FALSE
