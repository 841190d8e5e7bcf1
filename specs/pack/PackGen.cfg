CONSTANTS GDepth = 40 MaxV = 1 Len0 = 1 Bits = {1}
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
