CONSTANTS N = 6 K = 4
SPECIFICATION Spec
INVARIANT PermInv Correct FlipTwice
PROPERTY Ends
CHECK_DEADLOCK FALSE
