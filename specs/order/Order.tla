-------------------------------- MODULE Order --------------------------------
(* Sorting and array-moving helpers: the state is one value array and one index array;
   a sort may choose any result that orders the values (ties are free).               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, TLC
VARIABLES arr, idx
Range(s) == {s[i] : i \in 1..Len(s)}
IsPermOf(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
(* values: integers, or byte strings compared byte by byte *)
RECURSIVE LeStr(_, _, _)
LeStr(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] = b[k] THEN LeStr(a, b, k + 1) ELSE a[k] < b[k]
Le(kind, a, b) == IF kind = "c" THEN LeStr(a, b, 1) ELSE a <= b
Ordered(kind, a, ix) == \A i \in 1..Len(ix) - 1 : Le(kind, a[ix[i]], a[ix[i + 1]])
(* allowed results of the index sorts: of the whole array, or of the chosen entries *)
IpResult(kind, a, r) == IsPermOf(r, 1..Len(a)) /\ Ordered(kind, a, r)
CResult(kind, a, ix, r) == IF Len(ix) > 0 /\ ix[1] <= 0 THEN IsPermOf(r, 1..Len(ix)) /\ Ordered(kind, a, r)
                           ELSE IsPermOf(r, Range(ix)) /\ Ordered(kind, a, r)
Sorted(a) == SortSeq(a, LAMBDA x, y : x < y)
FlipRows(z, ni, nj) == [k \in 1..ni * nj |-> LET j == (k - 1) \div ni IN z[ni * (nj - 1 - j) + ((k - 1) % ni) + 1]]
(* the movers on words <<b3, b2, b1, b0>> (bytes, most significant first) *)
Move(op, n, s) == CASE op = "movlev"   -> SubSeq(s, 1, n)
                    [] op = "move3216" -> [i \in 1..n |-> <<s[i][3], s[i][4], s[i][1], s[i][2]>>]
                    [] op = "move832"  -> [i \in 1..n |-> <<s[i][4], s[i][3], s[i][2], s[i][1]>>]
                    [] op = "move6432" -> [i \in 1..2 * n |-> s[IF i % 2 = 1 THEN i + 1 ELSE i - 1]]
                    [] op = "movlev8"  -> SubSeq(s, 1, 2 * (n \div 2))
=============================================================================
