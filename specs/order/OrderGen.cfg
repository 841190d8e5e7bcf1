CONSTANTS N = 6 K = 3
INIT Init
NEXT Stop
INVARIANT Emit
CHECK_DEADLOCK FALSE
