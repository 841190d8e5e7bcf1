CONSTANTS Deep = FALSE
SPECIFICATION Spec
INVARIANT PairLaw CodeLaw OldLaw TripleLaw
CHECK_DEADLOCK FALSE
