CONSTANTS MaxN = 2 R = 3 Depth = 40
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
