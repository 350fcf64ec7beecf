SPECIFICATION Spec
CONSTANTS N = 5 Emit = FALSE
INVARIANTS NoneTwice OnlyLeaves AllAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
