SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Small
CONSTANTS
 MaxLen = 5
 Wide = FALSE
 MaxWord = 3
CHECK_DEADLOCK FALSE
