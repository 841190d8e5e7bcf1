CONSTANTS Depth = 0 GDepth = 60
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
