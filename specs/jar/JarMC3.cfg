CONSTANTS NJ = 1 Caps = {0, 1, 2, 4} Lens = {8, 12, 16} MaxPos = 5 Vals = {1} Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK
PROPERTIES RefusedIntact InsertThenThere OthersUntouched ExtractReadsOnly
CHECK_DEADLOCK FALSE
