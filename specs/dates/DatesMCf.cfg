CONSTANTS Y0 = 0 Y1 = 10049 Z0 = 0 Z1 = 1 Deep = FALSE
SPECIFICATION Spec
INVARIANT DayRight Order CalBij
CHECK_DEADLOCK FALSE
