CONSTANTS
 MaxCalls = 3
 Wrong = FALSE
INIT Init
NEXT Next
INVARIANTS Honoured RefusedForAReason Printed
CHECK_DEADLOCK FALSE
