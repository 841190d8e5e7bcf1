CONSTANTS PS = 3 NB = 2 MaxAdr = 9 MaxW = 5
INIT Init
NEXT Next
INVARIANT Refines Flushed Limit
CHECK_DEADLOCK FALSE
