CONSTANTS Cap = 896 MaxRecs = 2 Depth = 4 GDepth = 0
INIT MInit
NEXT MNext
INVARIANTS Laid Lengthy
PROPERTIES EditsOne Others
CHECK_DEADLOCK FALSE
