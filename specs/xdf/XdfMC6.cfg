CONSTANTS Cap = 10 MaxRecs = 2 Depth = 6 GDepth = 0
INIT MInit2
NEXT MNext2
INVARIANTS Edited Found
CHECK_DEADLOCK FALSE
