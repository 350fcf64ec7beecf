CONSTANTS
 What = "est"
 MaxLen = 0
 MaxDepth = 0
INIT Init
NEXT Next
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
