CONSTANTS
  MaxSlots = 3
  Depths = {2}
  Integs = {"whitted"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
