CONSTANTS NJ = 2 Caps = {0, 1, 3, 5} Lens = {0, 1, 7, 8, 9, 12, 16, 24} MaxPos = 7 Vals = {1, 60} Depth = 25
INIT MInit
NEXT GNext
INVARIANT TypeOK Emit
CHECK_DEADLOCK FALSE
