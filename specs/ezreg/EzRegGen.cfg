CONSTANT GDepth = 60
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
