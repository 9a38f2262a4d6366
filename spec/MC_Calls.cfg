CONSTANTS
 Schemas <- MCSchemas
 Pool <- MCPool
 MaxLen = 2
 MaxBatches = 2
 MaxRows = 2
 MaxTotal = 2
INIT CInit
NEXT CNext
INVARIANT Aligned0
CHECK_DEADLOCK FALSE
