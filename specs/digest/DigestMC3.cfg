CONSTANTS NR = 1 NM = 1 NA = 1 Alpha = {0, 1, 3, 128, 170, 255} MaxLen = 5 Depth = 0
INIT MInit
NEXT MNext
INVARIANT ChunkFree Detects
CHECK_DEADLOCK FALSE
