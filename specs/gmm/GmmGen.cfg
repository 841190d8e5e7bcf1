CONSTANTS GNames = {"A", "B", "C", "D"} GTypes = {"141", "142", "241"} MaxSteps = 0 Depth = 40
INIT MInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
