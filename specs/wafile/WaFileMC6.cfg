CONSTANTS Depth = 6 GDepth = 0
INIT MInit
NEXT MNext
INVARIANT Refines Normal Reads TypeOK AutoFree
CHECK_DEADLOCK FALSE
