CONSTANTS
 Header = 3
 Stripes <- MCStripes
 TailLens <- MCTail
 MaxFaults = 2
 MaxCalls = 3
 Plain = FALSE
 Poison = TRUE
SPECIFICATION Spec
INVARIANTS SuccessIsComplete PrefixAlways NoSuccessAfterError NoErrorWithoutCause CountTrue MarksTrue
PROPERTY ComesBack
CHECK_DEADLOCK FALSE
