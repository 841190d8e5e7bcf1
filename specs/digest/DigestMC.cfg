CONSTANTS NR = 1 NM = 1 NA = 1 Alpha = {0, 1, 128, 255} MaxLen = 4 Depth = 0
INIT MInit
NEXT MNext
INVARIANT ChunkFree Detects
CHECK_DEADLOCK FALSE
