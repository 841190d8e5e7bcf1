CONSTANTS Y0 = 2090 Y1 = 2109 Z0 = 2220 Z1 = 2239 Deep = FALSE
SPECIFICATION Spec
INVARIANT Laws CalBij
CHECK_DEADLOCK FALSE
