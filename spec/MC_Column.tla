----------------------------- MODULE MC_Column -----------------------------
EXTENDS Column
MCVals == {-2, 0, 2}
=============================================================================
