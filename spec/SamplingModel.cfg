SPECIFICATION Spec
INVARIANTS Inverts Ordered Emit
CONSTANTS
 MaxLen = 4
 Vals = {0, 1, 3}
 Den = 8
CHECK_DEADLOCK FALSE
