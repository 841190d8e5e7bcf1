CONSTANTS Y0 = 1890 Y1 = 1909 Z0 = 1970 Z1 = 2009 Deep = FALSE
SPECIFICATION Spec
INVARIANT Laws CalBij
CHECK_DEADLOCK FALSE
