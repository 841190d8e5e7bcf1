CONSTANTS Cap = 256
INIT TInit
NEXT TNext
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
