CONSTANTS Cap = 256 Texts = {"a", "bb", ""} Vs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9} Us = {1, 2, 3, 4, 5, 6} MaxSteps = 0 Depth = 40
INIT MInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
