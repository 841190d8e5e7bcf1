CONSTANTS NJ = 2 Caps = {1} Lens = {8, 3} MaxPos = 2 Vals = {1, 9} Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK
PROPERTIES RefusedIntact InsertThenThere OthersUntouched ExtractReadsOnly
CHECK_DEADLOCK FALSE
