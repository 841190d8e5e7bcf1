CONSTANTS MaxN = 2 R = 7 Depth = 0
INIT LInit
NEXT LNext
INVARIANT LawBracket LawNearest LawExclusive LawWindow LawAtLevel
CHECK_DEADLOCK FALSE
