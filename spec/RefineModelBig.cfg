SPECIFICATION Spec
CONSTANTS N = 6 Emit = FALSE
INVARIANTS NoneTwice OnlyLeaves AllAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
