SPECIFICATION Spec
INVARIANTS Complementary Bounded NothingLost Emit
CONSTANTS
 MaxLeaves = 4
 Bumps = {"none", "flat", "slope"}
CHECK_DEADLOCK FALSE
