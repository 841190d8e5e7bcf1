CONSTANTS Size <- MSize NH = 3 Alpha = {0, 32, 97} Depth = 0 MaxLen = 3
INIT MInit
NEXT HNext
VIEW HView
INVARIANT TypeOK AliasLive
CHECK_DEADLOCK FALSE
