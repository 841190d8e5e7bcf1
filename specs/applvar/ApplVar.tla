------------------------------ MODULE ApplVar ------------------------------
(* the table of application variables (set_appl_var / get_appl_var and their Fortran entries): a bounded map from names to values *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
CONSTANTS Capa                       \* capacity of the table
VARIABLE tab                        \* sequence of <<name, value>>, in order of creation
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
First(P(_)) == LET H == {i \in 1..Len(tab) : P(tab[i][1])} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
Exact(n) == First(LAMBDA x : x = n)
AnyCase(n) == First(LAMBDA x : Upper(x) = Upper(n))
Set(n, v) == LET k == Exact(n) IN IF k > 0 THEN [tab EXCEPT ![k] = <<n, v>>] ELSE IF Len(tab) < Capa THEN Append(tab, <<n, v>>) ELSE tab
Min2(a, b) == IF a < b THEN a ELSE b
Pad(s, c, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE c]
(* result of a get into a variable of len characters: [r, buf]; untouched variables are all 126 *)
Get(kind, n, len) == LET k == AnyCase(TrimR(n)) IN
    IF k = 0 THEN [r |-> 0, buf |-> [i \in 1..len |-> IF kind = "f" THEN 32 ELSE 126]]
    ELSE LET v == tab[k][2] IN [r |-> IF len >= Len(v) THEN Len(v) ELSE 0 - Len(v), buf |-> Pad(v, IF kind = "f" THEN 32 ELSE 0, len)]
Apply(a) == CASE a.op = "set"  -> [s |-> Set(TrimR(a.name), TrimR(a.value)), r |-> [r |-> 0, buf |-> <<>>]]
              [] a.op = "get"  -> [s |-> tab, r |-> Get(a.kind, a.name, a.len)]
              [] a.op = "free" -> [s |-> <<>>, r |-> [r |-> 0, buf |-> <<>>]]
=============================================================================
