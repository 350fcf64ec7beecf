SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Small
CONSTANTS
 MaxLen = 4
 Wide = TRUE
 MaxWord = 3
CHECK_DEADLOCK FALSE
