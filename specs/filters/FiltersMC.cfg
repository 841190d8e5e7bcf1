CONSTANTS Max = 2 MaxList = 2 Depth = 3 GDepth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT Decides Open Consistent
PROPERTIES FirstNone
CHECK_DEADLOCK FALSE
