------------------------------- MODULE Jar -------------------------------
(* Serialization jars (src/serializer/jar_mod.F90) as a state machine.                                    *)
(* A jar is a bounded array of 64-bit elements, modelled as bytes (8 per element) so that partial         *)
(* elements are visible; U stands for a byte whose value is not promised (never written, or padding).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT NJ                    \* number of jars
VARIABLE jars                  \* jar index -> jar

U == -1
W == 8                         \* bytes per element
Null == [alloc |-> FALSE, cap |-> 0, top |-> 0, bot |-> 0, data |-> <<>>]
Init0 == [j \in 1..NJ |-> Null]

Elems(n) == (n + W - 1) \div W                     \* elements needed for n bytes
Unknown(n) == [i \in 1..n |-> U]
ToBytes(w) == [i \in 1..W |-> IF i <= 3 THEN (w \div (256 ^ (i - 1))) % 256 ELSE 0]   \* non negative, < 2^24, little endian
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE ToBytes(Head(ws)) \o Flat(Tail(ws))

Pos(s, a, dflt) == IF a.haspos = 1 THEN a.pos - 1 ELSE dflt

(* ---- operations: from a jar and arguments to [s: jar afterwards, r: result] ---- *)
New(s, a) == IF s.alloc THEN [s |-> s, r |-> [ok |-> FALSE]]
             ELSE [s |-> [alloc |-> TRUE, cap |-> a.n, top |-> 0, bot |-> 0, data |-> Unknown(W * a.n)], r |-> [ok |-> TRUE]]
Shape(s, a) == IF s.alloc THEN [s |-> s, r |-> [ok |-> FALSE]]
               ELSE [s |-> [alloc |-> TRUE, cap |-> a.n, top |-> a.n, bot |-> 0, data |-> Flat(a.b)], r |-> [ok |-> TRUE]]
Free(s, a) == [s |-> Null, r |-> [st |-> IF s.alloc THEN 0 ELSE -1]]
Reset(s, a) == [s |-> [s EXCEPT !.top = 0, !.bot = 0], r |-> [st |-> 0]]

InsertFits(s, a) == LET p == Pos(s, a, s.top) IN s.alloc /\ p >= 0 /\ p + Elems(Len(a.b)) <= s.cap
Insert(s, a) ==
  IF ~InsertFits(s, a) THEN [s |-> s, r |-> [ok |-> FALSE]]
  ELSE LET p == Pos(s, a, s.top)
           n == Len(a.b)
           e == Elems(n)
           d == [i \in 1..(W * s.cap) |->
                   IF i > W * p /\ i <= W * p + n THEN a.b[i - W * p]
                   ELSE IF i > W * p + n /\ i <= W * (p + e) THEN U        \* padding of the last element
                   ELSE IF i > W * s.top /\ i <= W * p THEN 0             \* skipped elements are zero filled
                   ELSE s.data[i]]
       IN [s |-> [s EXCEPT !.top = p + e, !.data = d], r |-> [ok |-> TRUE]]

ExtractFits(s, a) == LET p == Pos(s, a, s.bot) IN s.alloc /\ p >= 0 /\ p + Elems(a.n) <= s.top
Extract(s, a) ==
  IF ~ExtractFits(s, a) THEN [s |-> s, r |-> [ok |-> FALSE, out |-> [i \in 1..a.n |-> 110]]]    \* destination untouched
  ELSE LET p == Pos(s, a, s.bot)
       IN [s |-> [s EXCEPT !.bot = p + Elems(a.n)],
           r |-> [ok |-> TRUE, out |-> SubSeq(s.data, W * p + 1, W * p + a.n)]]

Content(s, a) == [s |-> s, r |-> IF s.alloc /\ s.top > 0 THEN [assoc |-> TRUE, len |-> s.top, out |-> SubSeq(s.data, 1, W * s.top)]
                                 ELSE [assoc |-> FALSE, len |-> 0, out |-> <<>>]]
Full(s, a) == [s |-> s, r |-> IF s.alloc THEN [assoc |-> TRUE, len |-> s.cap, out |-> s.data]
                              ELSE [assoc |-> FALSE, len |-> 0, out |-> <<>>]]

OpNames == {"new", "shape", "free", "rst", "insert", "extract", "content", "full"}
Apply(s, a) == CASE a.op = "new" -> New(s, a) [] a.op = "shape" -> Shape(s, a) [] a.op = "free" -> Free(s, a)
                 [] a.op = "rst" -> Reset(s, a) [] a.op = "insert" -> Insert(s, a) [] a.op = "extract" -> Extract(s, a)
                 [] a.op = "content" -> Content(s, a) [] a.op = "full" -> Full(s, a)

(* ---- what an observer sees of a jar after any call ---- *)
Known(k, seen) == Len(k) = Len(seen) /\ \A i \in 1..Len(k) : k[i] = U \/ k[i] = seen[i]
Observed(s, e) == /\ e.valid = s.alloc
                  /\ e.guard = TRUE                      \* nothing outside the storage lent to jars was changed
                  /\ IF s.alloc THEN e.size = s.cap /\ e.top = s.top /\ e.bot = s.bot /\ e.avail = s.top - s.bot
                     ELSE e.size = -1 /\ e.top = -1 /\ e.bot = -1 /\ e.avail = -1
Agree(r, e) == CASE e.op \in {"new", "shape", "insert"} -> r.ok = e.ok
                 [] e.op = "free" -> r.st = e.st
                 [] e.op = "rst" -> TRUE
                 [] e.op = "extract" -> r.ok = e.ok /\ e.beyond = TRUE /\ Known(r.out, e.out)
                 [] e.op \in {"content", "full"} -> r.assoc = e.assoc /\ r.len = e.len /\ Known(r.out, e.out)
Step(e) == /\ e.op \in OpNames
           /\ LET x == Apply(jars[e.j], e)
              IN Agree(x.r, e) /\ Observed(x.s, e) /\ jars' = [jars EXCEPT ![e.j] = x.s]

(* ---- properties ---- *)
TypeOK == \A j \in 1..NJ : LET s == jars[j] IN /\ s.top \in 0..s.cap /\ s.bot \in 0..s.cap /\ Len(s.data) = W * s.cap
                                               /\ (~s.alloc => s = Null)
=============================================================================
