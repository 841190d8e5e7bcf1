CONSTANTS GNames = {"A", "B", "C"} GTypes = {"141"} MaxSteps = 4 Depth = 0
INIT MInit
NEXT MNext
VIEW View
INVARIANT UniqueNames ShuffleCycles
PROPERTY ShuffleOnlyNames ShuffleCount WriteIsLocal NothingLost
CHECK_DEADLOCK FALSE
