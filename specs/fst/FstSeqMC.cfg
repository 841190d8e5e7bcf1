CONSTANTS Depth = 8 GDepth = 0 PageN = 256
INIT MInit
NEXT MNext
INVARIANT Positions Addresses Reads Lists Skips
PROPERTY Tapes Wrote
CHECK_DEADLOCK FALSE
