SPECIFICATION Spec
INVARIANTS Inverts Ordered Emit
CONSTANTS
 MaxLen = 6
 Vals = {0, 1, 3}
 Den = 12
CHECK_DEADLOCK FALSE
