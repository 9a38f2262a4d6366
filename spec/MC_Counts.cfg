CONSTANTS
 Schemas <- MCSchemas
 LeafVals = {7}
 MaxLen = 2
 MaxCells = 2
 MaxRows = 2
 MaxStripes = 1
 LooseTag = FALSE
INIT CInit
NEXT CNext
INVARIANTS CheckExact TagExact OweExact ClosedAligned DoneIsEmpty
CHECK_DEADLOCK FALSE
