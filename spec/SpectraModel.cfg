SPECIFICATION Spec
INVARIANTS Between Splits Knot
CONSTANTS
 Vals = {0, 1, 3}
 MaxX = 4
 Lo2 = 0
 Hi2 = 10
CHECK_DEADLOCK FALSE
