CONSTANTS Depth = 0 GDepth = 40
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
