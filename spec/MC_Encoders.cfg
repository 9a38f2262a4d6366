CONSTANTS
 MaxLit = 4
 MaxRun = 6
 MinRun = 3
 W = 8
 DNeg = 2
 DHi = 1
 BW = 2
 N = 7
 Alphabet = {0, 1, 2, 3, 7}
INIT Init
NEXT Next
INVARIANTS ByteContent IntContent BoolContent GroupsLegal Positions HeldSound
CHECK_DEADLOCK FALSE
