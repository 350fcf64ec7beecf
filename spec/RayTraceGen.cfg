CONSTANTS
  MaxSlots = 3
  Depths = {1, 2, 3}
  Integs = {"whitted", "direct", "one", "path"}
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
