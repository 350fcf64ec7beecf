CONSTANTS
  Res = 4
  Widths = {1, 2, 3, 4, 5, 6, 8, 11}
  MaxS = 4
INIT Init
NEXT Next
INVARIANTS OrderFree WalkIsFootprint RangeCovers RangeTight Partition
CHECK_DEADLOCK FALSE
