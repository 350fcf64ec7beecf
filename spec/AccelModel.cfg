CONSTANTS
  N = 3
  T = 2
SPECIFICATION Spec
INVARIANT Nearest
PROPERTY Terminates
CHECK_DEADLOCK FALSE
