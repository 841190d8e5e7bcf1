CONSTANTS NV = 1 Alpha = {97} MaxLen = 1 Depth = 0
INIT MInit
NEXT MNext
INVARIANT Delivered
CHECK_DEADLOCK FALSE
