CONSTANTS PS = 2 NB = 2 MaxAdr = 6 MaxW = 3
INIT Init
NEXT Next
INVARIANT Refines Flushed Limit
CHECK_DEADLOCK FALSE
