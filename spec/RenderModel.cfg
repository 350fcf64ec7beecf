CONSTANTS
  MaxBatch = 2
  Spp = 1
INIT Init
NEXT Next
INVARIANTS OnlyAccepted AllAccepted WriteLast
CHECK_DEADLOCK FALSE
