CONSTANTS NR = 3 NM = 2 NA = 2
INIT TInit
NEXT TNext
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
