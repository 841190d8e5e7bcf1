CONSTANTS MaxArgs = 3 Depth = 12
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
