------------------------------- MODULE WaPage -------------------------------
(* The page cache of c_baseio.c (WA_CONFIG): words go through at most NB pages of PS words, written back when
   they are evicted or at the close.  It must refine the plain array of words of WaFile: view = array. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PS, NB, MaxAdr, MaxW
VARIABLES disk,   \* words on disk
          pages,  \* page number -> [w : PS words, last : number of valid words, dirty]
          size,   \* size of the file in words
          arr,    \* the array the user sees (history variable)
          nw
vars == <<disk, pages, size, arr, nw>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Pg(a) == (a - 1) \div PS          \* page of address a: a multiple of PS is the last word of its page
Of(a) == ((a - 1) % PS) + 1
Init == disk = <<>> /\ pages = <<>> /\ size = 0 /\ arr = <<>> /\ nw = 0
Back(d, p, q) == LET first == p * PS \* write back the valid words of page p with content q
                 IN [i \in 1..Max(Len(d), first + q.last) |-> IF i > first /\ i <= first + q.last THEN q.w[i - first] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
Evict(p) == /\ p \in DOMAIN pages
            /\ disk' = IF pages[p].dirty THEN Back(disk, p, pages[p]) ELSE disk
            /\ pages' = [q \in DOMAIN pages \ {p} |-> pages[q]]
            /\ UNCHANGED <<size, arr, nw>>
\* read page p from disk; the words beyond the end are zero
Load(p) == /\ p \notin DOMAIN pages /\ Cardinality(DOMAIN pages) < NB
           /\ p * PS <= size
           /\ pages' = [q \in DOMAIN pages \cup {p} |-> IF q = p THEN [w |-> [i \in 1..PS |-> IF p * PS + i <= Len(disk) THEN disk[p * PS + i] ELSE 0], last |-> Max(0, Min(PS, size - p * PS)), dirty |-> FALSE]
                                                        ELSE pages[q]]
           /\ UNCHANGED <<disk, size, arr, nw>>
\* a write within one page (longer writes are cut), appending or inside; the page is present
Write(a, k) == LET p == Pg(a) IN
           /\ p \in DOMAIN pages /\ a <= size + 1 /\ Of(a) + k - 1 <= PS /\ a + k - 1 <= MaxAdr /\ nw < MaxW
           /\ nw' = nw + 1
           /\ pages' = [pages EXCEPT ![p].w = [i \in 1..PS |-> IF i >= Of(a) /\ i < Of(a) + k THEN nw + 1 ELSE @[i]], ![p].last = Max(@, Of(a) + k - 1), ![p].dirty = TRUE]
           /\ size' = Max(size, a + k - 1)
           /\ arr' = [i \in 1..Max(Len(arr), a + k - 1) |-> IF i >= a /\ i < a + k THEN nw + 1 ELSE arr[i]]
           /\ UNCHANGED disk
Next == \/ \E p \in 0..Pg(MaxAdr) : Evict(p) \/ Load(p)
        \/ \E a \in 1..MaxAdr, k \in 1..PS : Write(a, k)
View == [i \in 1..size |-> IF Pg(i) \in DOMAIN pages THEN pages[Pg(i)].w[Of(i)] ELSE disk[i]]
Refines == /\ Len(arr) = size
           /\ \A i \in 1..size : Pg(i) \notin DOMAIN pages => i <= Len(disk)
           /\ View = arr
\* nothing is left but the disk after a flush
Flushed == DOMAIN pages = {} => disk = arr
Limit == Cardinality(DOMAIN pages) <= NB
=============================================================================
