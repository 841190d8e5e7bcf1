CONSTANTS Recs = 6 Cap = 16 Faults = FALSE
INIT GI
NEXT GN
INVARIANT Emit
CHECK_DEADLOCK FALSE
