CONSTANTS Y0 = 0 Y1 = 1 Z0 = 0 Z1 = 1 Deep = FALSE
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
