CONSTANTS NJ = 1 Caps = {0, 1, 3} Lens = {8, 12} MaxPos = 4 Vals = {1} Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK
PROPERTIES RefusedIntact InsertThenThere OthersUntouched ExtractReadsOnly
CHECK_DEADLOCK FALSE
