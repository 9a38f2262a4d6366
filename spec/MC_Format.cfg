CONSTANTS
 MaxGroups = 2
 Signed = TRUE
 Wrong = FALSE
INIT Init
NEXT Next
INVARIANTS ReadsBack CutShort
CHECK_DEADLOCK FALSE
