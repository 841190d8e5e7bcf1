-------------------------------- MODULE Gmm --------------------------------
(* Global memory manager (src/gmm): a directory of named fields.  An entry keeps its place for ever; a deleted one is renamed.
   Fields have a type (kind of element and rank, e.g. "143"), bounds, attributes, and contents; the contents follow the entry, not the name.
   Elements of a field are all known by their index: cont is the sequence of values (array order), or <<>> when never set. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
VARIABLE dir
Gone == "Variable deleted upon request"
Ok == 0
NotFound == -3
Inconsistent == -4
AlreadyExists == -5
AlreadyCreated == -6
Rank(t) == CASE t \in {"141", "181", "241", "281", "381"} -> 1 [] t \in {"142", "182", "242", "282", "382"} -> 2
             [] t \in {"143", "183", "243", "283", "383"} -> 3 [] OTHER -> 4
Find(d, n) == IF \E i \in 1..Len(d) : d[i].name = n THEN CHOOSE i \in 1..Len(d) : d[i].name = n /\ \A j \in 1..i-1 : d[j].name # n ELSE 0
Size(b) == b[2] - b[1] + 1
RECURSIVE Vol(_, _)
Vol(lay, r) == IF r = 0 THEN 1 ELSE Size(lay[r]) * Vol(lay, r - 1)
SameSizes(l1, l2, r) == \A k \in 1..r : Size(l1[k]) = Size(l2[k])
Kept == 1 + 2 + 4       \* flags of the caller kept at creation: restart, zeros, not-a-number
Created == 32
NoLay == <<0, 0, 0, 0, 0>>
Cut(lay, r) == [k \in 1..4 |-> IF k <= r THEN lay[k] ELSE NoLay]
Zeros(n) == [i \in 1..n |-> 0]
Iota(v, n) == [i \in 1..n |-> v + i - 1]
(* layout of a dimension: low, high, halo, halomax, n *)
NewEntry(a) == [name |-> a.name, t |-> a.t, lay |-> Cut(a.lay, Rank(a.t)), bounds |-> [k \in 1..Rank(a.t) |-> IF a.user THEN a.ub[k] ELSE <<a.lay[k][1], a.lay[k][2]>>],
                flags |-> (a.flags & Kept) | Created, initmode |-> a.initmode, uuid |-> a.uuid,
                cont |-> IF (a.flags & 2) # 0 THEN Zeros(Vol(a.lay, Rank(a.t))) ELSE IF a.user THEN Iota(a.v, Vol(a.lay, Rank(a.t))) ELSE <<>>]
Meta(e) == [lay |-> e.lay, flags |-> e.flags, initmode |-> e.initmode, uuid |-> e.uuid]
ContentOk(e, c) == Len(c) = Vol(e.lay, Rank(e.t)) /\ (e.cont # <<>> => c = e.cont)
Pointed(e, a) == a.assoc /\ a.bounds = e.bounds /\ ContentOk(e, a.cont)
Created1(d, a) ==     \* [r |-> result, d |-> directory, m |-> entry whose metadata and array are handed back (0: none), keep |-> user's pointer untouched]
  LET i == Find(d, a.name) r == Rank(a.t) IN
  IF a.user /\ \E k \in 1..r : Size(a.ub[k]) # Size(a.lay[k]) THEN [r |-> Inconsistent, d |-> d, i |-> 0]
  ELSE IF i = 0 THEN [r |-> Ok, d |-> Append(d, NewEntry(a)), i |-> Len(d) + 1]
  ELSE IF a.user THEN [r |-> AlreadyExists, d |-> d, i |-> 0]
  ELSE IF d[i].t # a.t \/ ~SameSizes(d[i].lay, a.lay, r) THEN [r |-> Inconsistent, d |-> d, i |-> 0]
  ELSE IF (d[i].flags & Created) # 0 THEN [r |-> AlreadyCreated, d |-> d, i |-> 0]
  ELSE [r |-> Ok, d |-> [d EXCEPT ![i].flags = ((a.flags & Kept) | d[i].flags) | Created], i |-> i]
Rename(d, o, n) == LET i == Find(d, o) IN IF Find(d, n) # 0 \/ i = 0 THEN d ELSE [d EXCEPT ![i].name = n]
(* a shuffle gives every name of the list the field of the one before it, and the first name that of the last; a name without a
   field passes the lack on *)
Names(l) == IF \E k \in 1..Len(l) : l[k] = "" THEN SubSeq(l, 1, (CHOOSE k \in 1..Len(l) : l[k] = "" /\ \A j \in 1..k-1 : l[j] # "") - 1) ELSE l
Shuffle(d, l) == LET q == Names(l) n == Len(q) IN
  [i \in 1..Len(d) |-> IF i \in {Find(d, q[k]) : k \in 1..n}
     THEN LET k == CHOOSE k \in 1..n : Find(d, q[k]) = i IN [d[i] EXCEPT !.name = q[IF k = n THEN 1 ELSE k + 1]] ELSE d[i]]
NoneOf(d, l) == \A k \in 1..Len(Names(l)) : Find(d, Names(l)[k]) = 0
Starts(s, p) == Len(p) = 0 \/ (Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p)
KeysOf(d, p) == LET q == SelectSeq(d, LAMBDA e : Starts(e.name, p)) IN [i \in 1..Len(q) |-> q[i].name]
Step(a) ==
  CASE a.op = "create" -> LET x == Created1(dir, a) IN
         /\ a.r = x.r /\ dir' = x.d
         /\ IF x.r = Ok THEN /\ Pointed(x.d[x.i], a)
                             /\ Find(dir, a.name) = 0 => a.meta = Meta(x.d[x.i])
            ELSE a.assoc = (a.user)           \* a refusal leaves the caller's array, or a null pointer
    [] a.op = "get" -> LET i == Find(dir, a.name) IN
         /\ dir' = dir
         /\ IF i = 0 THEN a.r = NotFound /\ ~a.assoc
            ELSE IF dir[i].t # a.t THEN a.r = Inconsistent /\ ~a.assoc
            ELSE a.r = Ok /\ Pointed(dir[i], a) /\ a.meta = Meta(dir[i])
    [] a.op = "write" -> LET i == Find(dir, a.name) IN
         IF i = 0 \/ dir[i].t # a.t THEN a.r < 0 /\ dir' = dir
         ELSE a.r = Ok /\ dir' = [dir EXCEPT ![i].cont = Iota(a.v, Vol(dir[i].lay, Rank(a.t)))]
    [] a.op = "getmeta" -> LET i == Find(dir, a.name) IN dir' = dir /\ IF i = 0 THEN a.r < 0 ELSE a.r = Ok /\ a.meta = Meta(dir[i])
    [] a.op = "update" -> LET i == Find(dir, a.name) IN
         IF i = 0 THEN a.r = NotFound /\ dir' = dir
         ELSE a.r = Ok /\ dir' = [dir EXCEPT ![i].uuid = a.uuid, ![i].flags = a.flags,
                                  ![i].lay = [k \in 1..4 |-> <<@[k][1], @[k][2], a.lay[k][3], a.lay[k][4], a.lay[k][5]>>]]
    [] a.op = "delete" -> LET i == Find(dir, a.name) IN
         IF i = 0 THEN a.r = NotFound /\ dir' = dir
         ELSE a.r = Ok /\ dir' = [dir EXCEPT ![i].name = Gone]
    [] a.op = "rename" -> /\ dir' = Rename(dir, a.name, a.new)
                          /\ (a.r = Ok) = (Find(dir, a.name) # 0 /\ Find(dir, a.new) = 0) /\ a.r <= 0
    [] a.op = "shuffle" -> IF NoneOf(dir, a.list) THEN a.r < 0 /\ dir' = dir ELSE a.r = Ok /\ dir' = Shuffle(dir, a.list)
    [] a.op = "keys" -> dir' = dir /\ IF Len(dir) > a.room THEN a.r = -1 ELSE a.r = Len(KeysOf(dir, a.pat)) /\ a.keys = KeysOf(dir, a.pat)
    [] a.op = "nkeys" -> dir' = dir /\ a.r = Len(dir)
    [] a.op = "all" ->     \* every live field read again: name, type, contents
         dir' = dir /\ Len(a.fields) = Len(dir) /\ \A i \in 1..Len(dir) : a.fields[i][1] = dir[i].name /\ (dir[i].name # Gone => ContentOk(dir[i], a.fields[i][2]))
TypeOK == \A i, j \in 1..Len(dir) : i # j /\ dir[i].name = dir[j].name => dir[i].name = Gone
=============================================================================
