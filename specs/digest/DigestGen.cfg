CONSTANTS NR = 3 NM = 2 NA = 2 Alpha = {0} MaxLen = 1 Depth = 14
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
