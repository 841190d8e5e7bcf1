CONSTANTS Recs = 2 Cap = 16 Faults = FALSE
SPECIFICATION Spec
INVARIANTS Intact Known Clean InStep AtEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
