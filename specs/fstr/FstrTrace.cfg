CONSTANTS Size <- TSize NH = 3
INIT TInit
NEXT TNext
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
