CONSTANTS
 B = 3
 N = 9
 MaxWrite = 8
 Sizes = {0, 1, 2}
 Grows = FALSE
INIT Init
NEXT Next
INVARIANTS Complete Bounded NoWaste Positions
CHECK_DEADLOCK FALSE
