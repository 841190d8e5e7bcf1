CONSTANTS W = 32 NW = 8 NS = 2
INIT TInit
NEXT TNext
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
