CONSTANTS Y0 = 1880 Y1 = 2249 Z0 = 0 Z1 = 10 Deep = TRUE
SPECIFICATION Spec
INVARIANT Laws CalBij
CHECK_DEADLOCK FALSE
