CONSTANTS Cap = 640 MaxRecs = 2 Depth = 5 GDepth = 60
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
