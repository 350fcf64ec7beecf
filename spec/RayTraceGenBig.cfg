CONSTANTS
  MaxSlots = 4
  Depths = {1, 2, 3, 4}
  Integs = {"whitted", "direct", "one", "path"}
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
