SPECIFICATION Spec
INVARIANTS Restores Recalls Depth OffIsOff
CONSTRAINT Small
CONSTANTS
 MaxLen = 6
 Wide = FALSE
 MaxWord = 3
CHECK_DEADLOCK FALSE
