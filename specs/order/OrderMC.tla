------------------------------- MODULE OrderMC -------------------------------
(* The two algorithms of the library as transition systems; they refine Order: whatever the values, they end, and in an allowed state *)
EXTENDS Order
CONSTANTS N, K
VARIABLES alg, gap, i, sw, a0, ix0, done
vars == <<arr, idx, alg, gap, i, sw, a0, ix0, done>>
Vals == 1..K
Id(n) == [k \in 1..n |-> k]
Shrink(g) == LET h == (g * 10) \div 13 IN IF h = 0 THEN 1 ELSE IF h \in {9, 10} THEN 11 ELSE h
Init == \E n \in 1..N : \E a \in [1..n -> Vals] : \E s \in {"comb", "tree"} : \E ix \in (IF s = "comb" THEN {Id(n), [k \in 1..n |-> n + 1 - k]} ELSE {Id(n)}) :
   /\ arr = a /\ a0 = a /\ alg = s /\ idx = ix /\ ix0 = ix
   /\ sw = 0 /\ done = FALSE
   /\ IF s = "comb" THEN gap = Shrink(n) /\ i = 1
      ELSE gap = n /\ i = n \div 2 + 1      \* tree: i = the node to sift, gap = the end of the heap
(* comb sort on the indices: one comparison per step *)
Comb == /\ alg = "comb" /\ ~done
        /\ IF i + gap <= Len(arr)
           THEN IF arr[idx[i]] > arr[idx[i + gap]]
                THEN idx' = [idx EXCEPT ![i] = idx[i + gap], ![i + gap] = idx[i]] /\ sw' = 1 /\ i' = i + 1 /\ UNCHANGED <<gap, done>>
                ELSE i' = i + 1 /\ UNCHANGED <<idx, sw, gap, done>>
           ELSE IF sw = 1 \/ gap > 1 THEN gap' = Shrink(gap) /\ sw' = 0 /\ i' = 1 /\ UNCHANGED <<idx, done>>
                ELSE done' = TRUE /\ UNCHANGED <<idx, sw, i, gap>>
        /\ UNCHANGED <<arr, alg, a0, ix0>>
(* treesort3: sift node k of the heap a[1..n] down *)
RECURSIVE Sift(_, _, _, _)
Sift(a, k, n, v) == IF 2 * k > n THEN [a EXCEPT ![k] = v]
                    ELSE LET j == IF 2 * k < n /\ a[2 * k + 1] > a[2 * k] THEN 2 * k + 1 ELSE 2 * k
                         IN IF a[j] <= v THEN [a EXCEPT ![k] = v] ELSE Sift([a EXCEPT ![k] = a[j]], j, n, v)
Tree == /\ alg = "tree" /\ ~done
        /\ IF Len(arr) <= 1 THEN done' = TRUE /\ UNCHANGED <<arr, i, gap>>
           ELSE IF i > 2 THEN i' = i - 1 /\ arr' = Sift(arr, i - 1, gap, arr[i - 1]) /\ UNCHANGED <<gap, done>>
           ELSE LET s == Sift(arr, 1, gap, arr[1]) IN
                /\ arr' = [s EXCEPT ![1] = s[gap], ![gap] = s[1]] /\ gap' = gap - 1 /\ i' = i /\ done' = (gap = 2)
        /\ UNCHANGED <<idx, alg, sw, a0, ix0>>
Next == Comb \/ Tree
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PermInv == IsPermOf(idx, 1..Len(arr))
Correct == done => IF alg = "comb" THEN CResult("e", a0, ix0, idx) /\ arr = a0 ELSE arr = Sorted(a0)
Ends == <>done
FlipTwice == \A ni \in 1..Len(a0) : \A nj \in 1..Len(a0) : ni * nj = Len(a0) => FlipRows(FlipRows(a0, ni, nj), ni, nj) = a0
(* every start of the small scope, for replay in the code *)
Stop == FALSE /\ UNCHANGED vars
Emit == PrintT("BEHAVIOUR " \o ToJson([alg |-> alg, a |-> arr, ix |-> idx]))
=============================================================================
