CONSTANTS
 GDepth = 0
 MaxV = 9
 Len0 = 4
 Bits = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12}
INIT MInit
NEXT MNext
INVARIANT Faithful
INVARIANT Apart
CHECK_DEADLOCK FALSE
