CONSTANTS
 Vals <- MCVals
 Stride = 2
 Lim = 3
 N = 5
 MaxStripes = 3
 Early = FALSE
INIT Init
NEXT Next
INVARIANTS Open StripeStats GroupStats GroupPositions PresentWhenNull FileStats NoEmptyStripe
CHECK_DEADLOCK FALSE
