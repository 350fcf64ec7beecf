CONSTANTS
 MaxLevel = 1
 NV = 4
 MaxF = 4
INIT Init
NEXT Next
INVARIANTS FaceCount EulerKept StaysManifold BoundaryDoubles InHull
CHECK_DEADLOCK FALSE
