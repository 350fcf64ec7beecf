SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Small
CONSTANTS
 MaxLen = 3
 Wide = TRUE
 MaxWord = 3
CHECK_DEADLOCK FALSE
