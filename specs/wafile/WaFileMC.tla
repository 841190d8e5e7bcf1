----------------------------- MODULE WaFileMC ------------------------------
EXTENDS WaFile, Json
CONSTANTS Depth, GDepth
VARIABLES ghost, n, hist      \* ghost: every word file as an explicit array of words; n: number of writes
mvars == <<disk, arc, un, da, ghost, n, hist>>
Units == {11, 12}
Files == {"f1", "f2"}
Expand(s) == [i \in 1..Size(s) |-> LET w == Take(Drop(s, i - 1), 1)[1] IN <<w.k, w.b>>]
Word(s, i) == Take(Drop(s, i - 1), 1)[1]
Cn(u, cls, f, ro) == [u |-> u, cls |-> cls, f |-> f, sub |-> IF cls = "sub" THEN "m" ELSE "", kind |-> "rnd", old |-> FALSE, ro |-> ro, low |-> FALSE]
Users(f) == {u \in DOMAIN un : un[u].f = f /\ un[u].sub = ""}
MInit == disk = <<>> /\ arc = [a |-> [m |-> Run(9, 0, 2)]] /\ un = <<>> /\ da = {} /\ ghost = <<>> /\ n = 0 /\ hist = 0
Zero(g, from, to) == [i \in 1..Max(Len(g), to) |-> IF i <= Len(g) THEN g[i] ELSE <<0, 0>>]
MNext ==
  /\ hist < Depth /\ hist' = hist + 1
  /\ \/ \E u \in Units \cup {0}, f \in Files, ro \in BOOLEAN : \E c \in {Cn(u, "plain", f, ro)} :
          /\ Users(f) = {} /\ n' = n
          /\ Fnom(c, IF FnomOk(c) THEN 0 ELSE -1, IF u = 0 THEN Auto(FALSE) ELSE u)
          /\ ghost' = IF f \in DOMAIN disk' /\ f \notin DOMAIN ghost THEN Put(ghost, f, <<>>) ELSE ghost
     \/ \E u \in Units : \E c \in {Cn(u, "sub", "a", FALSE)} : Fnom(c, IF FnomOk(c) THEN 0 ELSE -1, u) /\ UNCHANGED <<ghost, n>>
     \/ \E u \in Units : (IF u \in DOMAIN un THEN Fclos(u, 0) ELSE Fclos(u, -1)) /\ UNCHANGED <<ghost, n>>
     \/ \E u \in Units : u \in DOMAIN un /\ (Waopen(u, 3) \/ Waclos(u, 0)) /\ UNCHANGED <<ghost, n>>
     \/ \E u \in Units, adr \in 1..4, k \in 1..3 :
          /\ IsOpen(u) /\ n' = n + 1
          /\ Wawrit(u, adr, Run(n + 1, 0, k), IF un[u].ro THEN -1 ELSE k)
          /\ ghost' = IF un[u].ro THEN ghost ELSE
               LET g == ghost[un[u].f] h == [i \in 1..Max(Len(g), adr + k - 1) |-> IF i >= adr /\ i < adr + k THEN <<n + 1, i - adr>> ELSE IF i <= Len(g) THEN g[i] ELSE <<0, 0>>]
               IN [ghost EXCEPT ![un[u].f] = h]
MSpec == MInit /\ [][MNext]_mvars
\* the runs are the array of the last words written
Refines == DOMAIN disk = DOMAIN ghost /\ \A f \in DOMAIN disk : Expand(disk[f]) = ghost[f]
Normal == \A f \in DOMAIN disk : \A i \in 1..(Len(disk[f]) - 1) : ~Adj(disk[f][i], disk[f][i + 1])
Reads == \A u \in DOMAIN un : \A adr \in 1..4, k \in 0..3 :
            LET w == Words(u, adr, k) z == Size(Content(un[u])) IN Size(w) = Min(k, Max(z - adr + 1, 0))
               /\ (un[u].sub = "" => Expand(w) = SubSeq(ghost[un[u].f], adr, adr + Size(w) - 1))
TypeOK == /\ \A u \in DOMAIN un : un[u].sub = "" => un[u].f \in DOMAIN disk
          /\ \A u \in DOMAIN un : un[u].sub /= "" => un[u].ro
AutoFree == \A f \in BOOLEAN : Auto(f) \notin DOMAIN un
\* ---- behaviours for the code ----
Rnd(S) == TLCEval(RandomElement(S))
GInit == disk = <<>> /\ arc = <<>> /\ un = <<>> /\ da = {} /\ ghost = <<>> /\ n = 0 /\ hist = <<>>
GU == {11, 12, 300}
Fn == {"f1", "f2", "f3"}
GNext == Len(hist) < GDepth /\ n' = n + 1 /\ UNCHANGED ghost /\
  \E o \in {Rnd(1..20)}, u \in {Rnd(GU)}, f \in {Rnd(Fn)}, adr \in {Rnd(1..60)}, far \in {Rnd({0, 0, 0, 500, 1500})}, k \in {Rnd(0..40)}, at \in {(Rnd({0, 1, 2, 4, 8, 12, 16}) % 4)}, ex \in {Rnd(1..5)} :
   LET Idle == UNCHANGED vars /\ hist' = Append(hist, [op |-> "name", u |-> u]) IN
   IF o <= 4 THEN IF Users(f) /= {} THEN Idle ELSE \E c \in {[u |-> IF ex = 1 THEN 0 ELSE u, cls |-> "plain", f |-> f, sub |-> "", kind |-> "rnd", old |-> at % 2 = 1, ro |-> at = 2, low |-> FALSE]} :
          /\ Fnom(c, IF FnomOk(c) THEN 0 ELSE -1, IF c.u = 0 THEN Auto(FALSE) ELSE c.u) /\ hist' = Append(hist, [op |-> "fnom", u |-> c.u, f |-> f, t |-> adr % 4, at |-> at + 4 * (k % 4)])
   ELSE IF o = 5 THEN hist' = Append(hist, [op |-> "fclos", u |-> u]) /\ Fclos(u, IF u \in DOMAIN un THEN 0 ELSE -1)
   ELSE IF o = 6 THEN IF u \notin DOMAIN un THEN Idle ELSE hist' = Append(hist, [op |-> "waopen", u |-> u]) /\ Waopen(u, 3)
   ELSE IF o = 7 THEN hist' = Append(hist, [op |-> "waclos", u |-> u]) /\ Waclos(u, IF IsOpen(u) THEN 0 ELSE -1)
   ELSE IF o <= 13 THEN IF ~IsOpen(u) THEN Idle ELSE IF adr + far > Size(Content(un[u])) + MaxHole THEN Idle ELSE
          Wawrit(u, adr + far, Run(n + 1, 0, k), IF un[u].ro THEN -1 ELSE k) /\ hist' = Append(hist, [op |-> "wawrit", u |-> u, adr |-> adr + far, n |-> k])
   ELSE IF o <= 17 THEN UNCHANGED vars /\ hist' = Append(hist, [op |-> "waread", u |-> u, adr |-> adr, n |-> k + far])
   ELSE IF o = 18 THEN UNCHANGED vars /\ hist' = Append(hist, [op |-> "wasize", u |-> u])
   ELSE UNCHANGED vars /\ hist' = Append(hist, [op |-> "cat", f |-> f])
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
