CONSTANTS NMsg = 4 GDepth = 0
INIT PInit2
NEXT PNext2
INVARIANTS Fifo Kept NoGap
CHECK_DEADLOCK FALSE
