CONSTANTS Depth = 6 GDepth = 0 PageN = 2
INIT MInit
NEXT MNext
INVARIANT Handles Enumerates ReadOnly Distinct Grows
PROPERTY Durable Local
CHECK_DEADLOCK FALSE
