CONSTANTS Depth = 0 GDepth = 70 PageN = 256
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
