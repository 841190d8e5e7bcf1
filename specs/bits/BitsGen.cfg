CONSTANTS W = 32 NW = 8 NS = 2 Widths = {0, 1, 5, 8, 13, 16, 31, 32, 33} MaxSlices = 12 Depth = 10
INIT MInit
NEXT GNext
INVARIANT TypeOK Emit
CHECK_DEADLOCK FALSE
