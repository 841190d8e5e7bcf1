CONSTANTS NMsg = 3 GDepth = 45
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
