CONSTANT GDepth = 24
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
