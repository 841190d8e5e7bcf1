CONSTANTS Cap = 2 Texts = {"a", "b"} Vs = {3, 6, 9} Us = {1, 3} MaxSteps = 5 Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT TypeOK Kept
PROPERTY AtMostOnce OnlyMessagesAndFlushWrite SettingsOnlyBySetters ErrorIsNotSilenced FlushEmpties
CHECK_DEADLOCK FALSE
