CONSTANTS
  N = 4
  T = 2
SPECIFICATION Spec
INVARIANT Nearest
CHECK_DEADLOCK FALSE
