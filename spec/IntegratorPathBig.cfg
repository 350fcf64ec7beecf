CONSTANTS
 What = "path"
 MaxLen = 4
 MaxDepth = 0
INIT Init
NEXT Next
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
