SPECIFICATION Spec
INVARIANTS Restores Recalls Depth OffIsOff
CONSTRAINT Small
CONSTANTS
 MaxLen = 5
 Wide = TRUE
 MaxWord = 3
CHECK_DEADLOCK FALSE
