CONSTANTS
 What = "tree"
 MaxLen = 0
 MaxDepth = 3
INIT Init
NEXT Next
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
