CONSTANTS
 W = 4
 NMax = 3
 OMax = 4
 TMax = 6
SPECIFICATION Spec
INVARIANT Complete
CHECK_DEADLOCK FALSE
PROPERTY Terminates
