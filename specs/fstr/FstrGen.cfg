CONSTANTS Size <- GSize NH = 3 Alpha = {0} Depth = 30 MaxLen = 1
INIT MInit
NEXT GNext
INVARIANT TypeOK AliasLive Emit
CHECK_DEADLOCK FALSE
