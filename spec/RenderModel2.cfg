CONSTANTS
  MaxBatch = 1
  Spp = 2
INIT Init
NEXT Next
INVARIANTS OnlyAccepted AllAccepted WriteLast
CHECK_DEADLOCK FALSE
