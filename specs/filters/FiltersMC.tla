----------------------------- MODULE FiltersMC -----------------------------
EXTENDS Filters
CONSTANTS Depth, GDepth
VARIABLE hist
A == <<65, 32>>  B == <<66, 32>>  C == <<62, 62>>
Lev(v) == [raw |-> v, k |-> 2, v |-> v]
Oth == [raw |-> 9, k |-> 4, v |-> 2]
R(nv, x, t) == [nv |-> nv, tv |-> <<80>>, et |-> <<69>>, g |-> 88, t |-> t, ip |-> <<x, Lev(0), Lev(0)>>, n |-> <<1, 1, 1, 0, 0, 0, 7>>]
Univ == {R(nv, x, t) : nv \in {A, B, C}, x \in {Lev(1), Lev(2), Lev(3), Oth}, t \in {0, 60}}
Strs == { [op |-> "str", f |-> "nv", l |-> q, n |-> Len(q)] : q \in {<<>>, <<A>>, <<A, B>>, << <<62>> >>, << <<32>> >>} }
RangeOf(m, lo, hi, d) == [op |-> "ip", f |-> "ip1", m |-> m, l |-> <<>>, lo |-> lo, hi |-> hi, d |-> d, n |-> 2]
Ips == { RangeOf("range", lo, hi, 0) : lo \in {<<>>, <<Lev(2)>>}, hi \in {<<>>, <<Lev(2)>>, <<Lev(1)>>} } \cup { RangeOf("delta", <<Lev(1)>>, <<Lev(3)>>, 2) }
       \cup { [op |-> "ip", f |-> "ip1", m |-> "list", l |-> <<[raw |-> 8, k |-> 2, v |-> 2]>>, lo |-> <<>>, hi |-> <<>>, d |-> 0, n |-> 1] }
Sups == { [op |-> "sup", f |-> "sup", v |-> <<-1, -1, -1, -1, -1, -1, z>>, g |-> 32, n |-> 1] : z \in {7, 8} }
Dates == { [op |-> "date", f |-> "dt", m |-> m, l |-> <<>>, lo |-> <<0>>, hi |-> hi, d |-> 0, n |-> 2] : m \in {"range", "bad"}, hi \in {<<>>, <<30>>} }
Do(a, s, des, b) == \E r \in {0, -1} : Sel([r |-> r, s |-> s, des |-> des, b |-> b] @@ a)
MInit == FInit /\ hist = 0
MNext == hist < Depth /\ hist' = hist + 1 /\
    \/ \E a \in Strs \cup Ips \cup Sups \cup Dates, s \in -1..Max, des \in BOOLEAN : Do(a, s, des, FALSE)
    \/ \E a \in {CHOOSE x \in Sups : TRUE} : Do(a, 0, TRUE, TRUE)
    \/ \E s \in 0..Max, k \in BOOLEAN : \E r \in {0, -1} : Reset([s |-> s, keep |-> [i \in 1..7 |-> k], r |-> r])
    \/ \E a \in -1..Max, z \in 0..Max : \E r \in {0, -1} : Group([a |-> a, z |-> z, r |-> r])
    \/ \E o \in {"on", "off"} : \E r \in {0, 1} : Switch([op |-> o, r |-> r])
    \/ \E o \in {"desire", "exclure"} : \E r \in {0, -1} : Sense([op |-> o, r |-> r])
SatSets(r) == {s \in Used : Sat(req[s], r)}
(* the first request satisfied decides; with none satisfied, a record is found when no request of the group desires *)
Decides == off \/ \A r \in Univ : IF SatSets(r) = {} THEN (Match(r) # 0) = (\A s \in Used : ~req[s].des)
                                  ELSE LET f == CHOOSE s \in SatSets(r) : \A u \in SatSets(r) : s <= u IN Match(r) = IF req[f].des THEN f + 1 ELSE 0
Open == (off \/ Used = {}) => \A r \in Univ : Match(r) = 1
Acc == {r \in Univ : Match(r) # 0}
(* excluding never finds more, unless the request was not the last one used; a narrower list never satisfies more *)
OnlyExclure == \A s \in Used : ~req[s].des
FirstNone == [][(OnlyExclure /\ OnlyExclure' /\ ~off /\ ~off' /\ rng' = rng /\ \A s \in Used : req'[s] = req[s]) =>
                 {r \in Univ : Match(r)' # 0} \subseteq Acc]_<<req, rng, off, bun, recs, hist>>
Consistent == \A s \in DOMAIN req : ~req[s].used => ~req[s].sup.on
View == <<req, rng, off, bun>>
(* ---------------------------------------------------------------- behaviours to replay *)
Rnd(S) == TLCEval(RandomElement(S))
GInit == FInit /\ hist = <<>>
Name(s) == CASE s = 1 -> A [] s = 2 -> B [] s = 3 -> C
GNext == Len(hist) < GDepth /\ \E o \in {Rnd(1..12)}, a \in {Rnd(Strs \cup Ips \cup Sups \cup Dates)}, s \in {Rnd({0, 0, 1, 1, 2, 49, 50, -1} \cap -1..Max)}, des \in {Rnd(BOOLEAN)}, k \in {Rnd(BOOLEAN)}, p \in {Rnd(1..4)} :
    LET d2 == IF s \in 0..(Max - 1) /\ req[s].used /\ p < 4 THEN req[s].des ELSE des
        ev == CASE o <= 5 -> [s |-> s, des |-> d2, b |-> (p = 4)] @@ a
                [] o = 6 -> [op |-> "clear", s |-> s, keep |-> [i \in 1..7 |-> k]]
                [] o = 7 /\ p = 1 -> [op |-> "group", a |-> Rnd(-1..2), z |-> Rnd({1, 2, 49, 50})]
                [] o = 8 /\ p = 2 -> [op |-> Rnd({"on", "off"})]
                [] o = 9 -> [op |-> Rnd({"desire", "exclure"})]
                [] OTHER -> [op |-> "find", w |-> p]
    IN  /\ hist' = Append(hist, ev)
        /\ CASE ev.op \in {"str", "ip", "sup", "date"} -> \E r \in {0, -1} : Sel([r |-> r] @@ ev)
             [] ev.op = "clear" -> \E r \in {0, -1} : Reset([r |-> r] @@ ev)
             [] ev.op = "group" -> \E r \in {0, -1} : Group([r |-> r] @@ ev)
             [] ev.op \in {"on", "off"} -> \E r \in {0, 1} : Switch([r |-> r] @@ ev)
             [] ev.op \in {"desire", "exclure"} -> \E r \in {0, -1} : Sense([r |-> r] @@ ev)
             [] OTHER -> UNCHANGED vars
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
