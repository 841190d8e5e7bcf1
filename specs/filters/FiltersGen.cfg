CONSTANTS Max = 50 MaxList = 50 Depth = 0 GDepth = 40
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
