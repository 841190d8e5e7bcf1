CONSTANTS Depth = 4 GDepth = 0
INIT MInit
NEXT MNext
INVARIANTS TypeInv
PROPERTIES ReadOnly KindKept Refused OneBoard OneEntry Back
CHECK_DEADLOCK FALSE
