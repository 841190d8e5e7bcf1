CONSTANTS Size <- MSize NH = 1 Alpha = {0, 32, 97} Depth = 0 MaxLen = 3
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK
PROPERTIES Faithful RefuseOnlyShort Bounded Padded
CHECK_DEADLOCK FALSE
