CONSTANTS
 MaxLevel = 2
 NV = 5
 MaxF = 4
INIT Init
NEXT Next
INVARIANTS FaceCount EulerKept StaysManifold BoundaryDoubles InHull
CHECK_DEADLOCK FALSE
