CONSTANTS Max = 50 MaxList = 50
INIT TInit
NEXT TNext
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
