CONSTANTS W = 4 NW = 2 NS = 1 Widths = {0, 1, 2, 3, 4, 5} MaxSlices = 4 Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK
PROPERTIES RoundTrip GetPure PutBounded SwapInv Others
CHECK_DEADLOCK FALSE
