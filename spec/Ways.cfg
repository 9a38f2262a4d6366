CONSTANTS
 MaxLit = 3
 MaxRun = 4
 MinRun = 3
 W = 4
 DNeg = 2
 DHi = 1
 BW = 2
 Rows = 4
 NCols = 2
 Stride = 2
 Cells = {0, 1}
 Share = ""
INIT Init
NEXT Next
INVARIANTS SameFile Meaning
CHECK_DEADLOCK FALSE
