CONSTANTS
  MaxSlots = 4
  Depths = {1, 2, 4}
  Integs = {"whitted"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
