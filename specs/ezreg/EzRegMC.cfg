CONSTANTS MaxId = 3  MaxN = 2  MaxOps = 5
INIT MInit
NEXT MNext
INVARIANTS OneIdentity Counted PairLives OptsLegal ReadBack
CHECK_DEADLOCK FALSE
