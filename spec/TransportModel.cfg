SPECIFICATION Spec
INVARIANTS Mis PathOnce
CONSTANTS
 Grid = {"0", "1/4", "1/2", "3/4", "1"}
 MaxD = 3
CHECK_DEADLOCK FALSE
