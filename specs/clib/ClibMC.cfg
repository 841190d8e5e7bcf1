CONSTANTS Depth = 3 GDepth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT Tree NoSideEffect Post
CHECK_DEADLOCK FALSE
