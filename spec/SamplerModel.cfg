CONSTANTS
  MaxX = 4
  MaxY = 5
  MaxTiles = 9
INIT Init
NEXT Next
INVARIANTS AtMostOnce AllAtEnd Disjoint
CHECK_DEADLOCK FALSE
