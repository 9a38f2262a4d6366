CONSTANTS
 NCols = 2
 MaxStripes = 2
 Lens = {0, 1}
 MaxRows = 1
 HeaderLen = 3
 Wrong = ""
INIT Init
NEXT Next
INVARIANTS Found Listed TailFound
CHECK_DEADLOCK FALSE
