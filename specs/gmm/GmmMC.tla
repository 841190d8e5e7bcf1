------------------------------- MODULE GmmMC -------------------------------
EXTENDS Gmm
CONSTANTS GNames, GTypes, MaxSteps, Depth
VARIABLES last, hist, n
Lay1(hi) == [k \in 1..4 |-> IF k <= 2 THEN <<1, hi, 0, 0, hi>> ELSE NoLay]
Cre(nm, t, hi, fl) == [op |-> "create", name |-> nm, t |-> t, user |-> FALSE, v |-> 0, flags |-> fl, initmode |-> 0, uuid |-> <<1, 2>>, lay |-> Lay1(hi), ub |-> <<<<1, 1>>, <<1, 1>>, <<1, 1>>, <<1, 1>>>>]
Lists == {<<x, y>> : x \in GNames, y \in GNames} \cup {<<x, y, z>> : x \in GNames, y \in GNames, z \in GNames}
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Ops == {Cre(nm, t, hi, fl) : nm \in GNames, t \in GTypes, hi \in {1, 2}, fl \in {0, 2}}
  \cup {[op |-> "write", name |-> nm, t |-> t, v |-> v] : nm \in GNames, t \in GTypes, v \in {10, 20}}
  \cup {[op |-> "delete", name |-> nm] : nm \in GNames}
  \cup {[op |-> "rename", name |-> nm, new |-> nn] : nm \in GNames, nn \in GNames}
  \cup {[op |-> "shuffle", list |-> q] : q \in {x \in Lists : Distinct(x)}}
  \cup {[op |-> "update", name |-> nm, flags |-> 0, uuid |-> <<3, 4>>, lay |-> Lay1(2)] : nm \in GNames}
ApplyG(d, a) ==
  CASE a.op = "create" -> Created1(d, a).d
    [] a.op = "write" -> LET i == Find(d, a.name) IN IF i = 0 \/ d[i].t # a.t THEN d ELSE [d EXCEPT ![i].cont = Iota(a.v, Vol(d[i].lay, Rank(a.t)))]
    [] a.op = "delete" -> LET i == Find(d, a.name) IN IF i = 0 THEN d ELSE [d EXCEPT ![i].name = Gone]
    [] a.op = "rename" -> Rename(d, a.name, a.new)
    [] a.op = "shuffle" -> IF NoneOf(d, a.list) THEN d ELSE Shuffle(d, a.list)
    [] a.op = "update" -> LET i == Find(d, a.name) IN IF i = 0 THEN d ELSE [d EXCEPT ![i].uuid = a.uuid, ![i].flags = a.flags]
MInit == dir = <<>> /\ last = [op |-> "none"] /\ hist = <<>> /\ n = 0
MNext == n < MaxSteps /\ n' = n + 1 /\ hist' = <<>> /\ \E a \in Ops : dir' = ApplyG(dir, a) /\ last' = a
GNext == n' = n /\ \E a \in {TLCEval(RandomElement(Ops))} : dir' = ApplyG(dir, a) /\ last' = a /\ hist' = Append(hist, a)
View == <<dir, n>>
vars == <<dir, last, hist, n>>
Live(d) == {d[i].name : i \in 1..Len(d)} \ {Gone}
UniqueNames == \A i, j \in 1..Len(dir) : i # j /\ dir[i].name = dir[j].name => dir[i].name = Gone
(* a shuffle moves whole fields, cyclically, among the named ones only; applied as many times as there are names it is the identity when all exist *)
RECURSIVE Times(_, _, _)
Times(d, q, k) == IF k = 0 THEN d ELSE Times(Shuffle(d, q), q, k - 1)
ShuffleCycles == \A q \in Lists : Distinct(q) /\ (\A k \in 1..Len(q) : Find(dir, q[k]) # 0) => Times(dir, q, Len(q)) = dir
ShuffleOnlyNames == [][last'.op \in {"shuffle", "rename"} => Len(dir') = Len(dir) /\ \A i \in 1..Len(dir) : [dir'[i] EXCEPT !.name = dir[i].name] = dir[i]]_vars
ShuffleCount == [][last'.op = "shuffle" => Cardinality(Live(dir')) = Cardinality(Live(dir))]_vars
WriteIsLocal == [][last'.op = "write" => \A i \in 1..Len(dir) : dir[i].name # last'.name => dir'[i] = dir[i]]_vars
NothingLost == [][\A i \in 1..Len(dir) : dir'[i].t = dir[i].t /\ (dir[i].name = Gone => dir'[i].name = Gone)]_vars
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
