CONSTANTS MaxN = 33 R = 5 Depth = 0
INIT BInit
NEXT BNext
INVARIANT InRange Finds
CHECK_DEADLOCK FALSE
