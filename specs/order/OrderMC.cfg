CONSTANTS N = 5 K = 3
SPECIFICATION Spec
INVARIANT PermInv Correct FlipTwice
PROPERTY Ends
CHECK_DEADLOCK FALSE
