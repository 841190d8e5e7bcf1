CONSTANTS Depth = 3 GDepth = 50
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
