CONSTANTS
 NCols = 2
 Lag = 1
 Size = 2
 MaxRows = 5
 MaxBatch = 3
 MaxBatches = 3
 Rule = "right"
INIT Init
NEXT Next
INVARIANTS Sound Whole Ordered
CHECK_DEADLOCK FALSE
