INIT MInit
NEXT MNext
INVARIANT LinearRange NearestIsCorner Reproduces Affine Constant
CHECK_DEADLOCK FALSE
