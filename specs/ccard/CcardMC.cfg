CONSTANTS MaxArgs = 3 Depth = 0
SPECIFICATION MSpec
INVARIANT Untouched PosOnly PosOrder Clean Slots
PROPERTY Monotone
CHECK_DEADLOCK FALSE
