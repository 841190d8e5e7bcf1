CONSTANTS NV = 1 Alpha = {97, 32, 44, 59, 61, 40, 41, 34} MaxLen = 5 Depth = 0
INIT AInit
NEXT ANext
INVARIANT Positions Prefix
CHECK_DEADLOCK FALSE
