CONSTANTS Capa = 3 Depth = 6 GDepth = 0
INIT MInit
NEXT MNext
INVARIANT LastValue Bounded
CHECK_DEADLOCK FALSE
