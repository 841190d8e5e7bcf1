CONSTANTS NV = 2 Alpha = {97, 98, 66, 32, 32, 44, 59, 61, 61, 40, 41, 91, 93, 123, 125, 34, 39, 49} MaxLen = 5 Depth = 16
INIT MInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
