CONSTANTS
 MaxLevel = 0
 NV = 5
 MaxF = 6
INIT Init
NEXT Next
INVARIANTS FaceCount StaysManifold Scenario
CHECK_DEADLOCK FALSE
