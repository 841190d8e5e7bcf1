CONSTANTS Capa = 1024 Depth = 6 GDepth = 40
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
