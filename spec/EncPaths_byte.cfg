CONSTANTS
 Enc = "byte"
 MaxPath = 400
 MaxLit = 128
 MaxRun = 130
 MinRun = 3
 W = 256
 DNeg = 128
 DHi = 127
 BW = 8
INIT Init
NEXT Next
VIEW View
INVARIANT Right
CHECK_DEADLOCK FALSE
