CONSTANTS Capa = 1024
INIT TInit
NEXT TNext
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
