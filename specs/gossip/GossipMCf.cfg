CONSTANTS Recs = 1 Cap = 16 Faults = TRUE
SPECIFICATION Spec
INVARIANTS Intact Known Clean AtEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
