----------------------------- MODULE ApplVarMC -----------------------------
EXTENDS ApplVar
CONSTANTS Depth, GDepth
VARIABLES last, hist        \* last: name -> value set most recently by that exact name (history variable)
Names == { <<97>>, <<97, 98>>, <<97, 98, 99>>, <<98>> }
Vals == { <<>>, <<49>>, <<49, 50, 51>> }
Lens == {0, 1, 2, 4}
Acts == [op : {"set"}, name : Names, value : Vals] \cup {[op |-> "free"]}
MInit == tab = <<>> /\ last = << >> /\ hist = 0
MNext == hist < Depth /\ hist' = hist + 1 /\ \E a \in Acts : tab' = Apply(a).s /\
         last' = IF a.op = "free" THEN << >> ELSE IF a.name \in DOMAIN last \/ Len(tab) < Capa THEN [n \in DOMAIN last \cup {a.name} |-> IF n = a.name THEN a.value ELSE last[n]] ELSE last
LastValue == \A n \in Names : \A k \in {"c", "f"} : \A z \in Lens : LET g == Get(k, n, z) IN
    IF n \in DOMAIN last THEN (g.r >= 0 => g.r = Len(last[n]) /\ SubSeq(g.buf, 1, g.r) = last[n]) /\ (g.r < 0 => 0 - g.r > z /\ g.buf = SubSeq(last[n], 1, z)) ELSE g.r = 0
Bounded == Len(tab) <= Capa /\ \A i, j \in 1..Len(tab) : tab[i][1] = tab[j][1] => i = j
Rnd(S) == TLCEval(RandomElement(S))
GInit == tab = <<>> /\ last = <<>> /\ hist = <<>>
Case(n) == [i \in 1..Len(n) |-> IF Rnd(1..2) = 1 THEN n[i] ELSE n[i] - 32]
GNext == Len(hist) < GDepth /\ UNCHANGED last /\ \E o \in {Rnd({"set", "set", "get", "get1", "free1"})} : \E n \in {Rnd(Names)}, v \in {Rnd(Vals \cup {<<120, 32, 121, 32>>})}, f \in {Rnd(1..12)}, z \in {Rnd(0..6)}, k \in {Rnd({"c", "f"})} :
   \E a \in {CASE o = "set" -> [op |-> "set", kind |-> k, name |-> n, value |-> v] [] o = "free1" /\ f = 1 -> [op |-> "free"]
              [] o = "get" -> [op |-> "get", kind |-> k, name |-> n, len |-> z] [] OTHER -> [op |-> "get", kind |-> k, name |-> TLCEval(Case(n)), len |-> z]} :
     hist' = Append(hist, a) /\ tab' = Apply(a).s
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
