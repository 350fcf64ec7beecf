CONSTANTS
 W = 4
 NMax = 4
 OMax = 9
 TMax = 6
SPECIFICATION Spec
INVARIANT Complete
CHECK_DEADLOCK FALSE
