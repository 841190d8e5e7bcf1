------------------------------- MODULE JarMC -------------------------------
(* bounded exhaustive model and generator of behaviours *)
EXTENDS Jar
CONSTANTS Caps, Lens, MaxPos, Vals, Depth
VARIABLES last, hist
Bytes(n, v) == [i \in 1..n |-> (v + i) % 256]
P == {<<0, 0>>} \cup {<<1, p>> : p \in 0..MaxPos}
Ops == {[op |-> "new", j |-> j, n |-> n] : j \in 1..NJ, n \in Caps}
  \cup {[op |-> "shape", j |-> j, n |-> n, b |-> [i \in 1..n |-> v + 100 * i]] : j \in 1..NJ, n \in Caps \ {0}, v \in Vals}
  \cup {[op |-> o, j |-> j] : o \in {"free", "rst", "content", "full"}, j \in 1..NJ}
  \cup {[op |-> "insert", j |-> j, haspos |-> p[1], pos |-> p[2], b |-> Bytes(n, v)] : j \in 1..NJ, p \in P, n \in Lens, v \in Vals}
  \cup {[op |-> "extract", j |-> j, haspos |-> p[1], pos |-> p[2], n |-> n] : j \in 1..NJ, p \in P, n \in Lens}
MInit == jars = Init0 /\ last = [op |-> "none"] /\ hist = <<>>
Do(a) == LET x == Apply(jars[a.j], a) IN jars' = [jars EXCEPT ![a.j] = x.s] /\ last' = [a |-> a, r |-> x.r]
MNext == \E a \in Ops : Do(a) /\ hist' = <<>>
GNext == \E a \in Ops : Do(a) /\ hist' = Append(hist, a)
View == jars

(* action properties *)
RefusedIntact == [][last'.a.op \in {"insert", "extract", "new", "shape"} /\ ~last'.r.ok => jars' = jars]_<<jars, last>>
InsertThenThere == [][last'.a.op = "insert" /\ last'.r.ok =>
     LET s == jars'[last'.a.j] n == Len(last'.a.b) p == s.top - Elems(n)
     IN Known(last'.a.b, SubSeq(s.data, W * p + 1, W * p + n))]_<<jars, last>>
OthersUntouched == [][\A j \in 1..NJ : j # last'.a.j => jars'[j] = jars[j]]_<<jars, last>>
ExtractReadsOnly == [][last'.a.op = "extract" => jars'[last'.a.j].data = jars[last'.a.j].data /\ jars'[last'.a.j].top = jars[last'.a.j].top]_<<jars, last>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
