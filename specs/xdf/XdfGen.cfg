CONSTANTS Cap = 8 MaxRecs = 3 Depth = 4 GDepth = 60
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
