------------------------------ MODULE EzIntGen ------------------------------
(* random behaviours: one or two grids, fields, options, interpolations *)
EXTENDS EzInt
CONSTANT GDepth
VARIABLES kind, g, opt, hist
Rnd(S) == TLCEval(RandomElement(S))
Base(ni, nj) == [ni |-> ni, nj |-> nj, ext |-> 0, glob |-> FALSE, mir |-> 0, per |-> 0, pole |-> <<-999, -999>>, ax |-> <<>>, ay |-> <<>>]
RECURSIVE Steps(_, _)
Steps(n, from) == IF n = 0 THEN <<>> ELSE <<from>> \o Steps(n - 1, from + Rnd(1..2))
Kinds == {"L", "Z", "A", "B", "ZG1", "ZG2", "G", "AN", "AS", "BN", "BS", "GN", "GS", "LG1", "LG2"}
MakeGrid(k) == CASE k = "L" -> Base(Rnd(4..6), Rnd(4..6))
   [] k = "Z" -> LET ni == Rnd(4..6)  nj == Rnd(4..6) IN [Base(ni, nj) EXCEPT !.ax = Steps(ni, Rnd(0..3)), !.ay = Steps(nj, Rnd(0..3))]
   [] k = "A" \/ k = "LG2" -> [Base(8, 6) EXCEPT !.ext = 2, !.glob = TRUE, !.pole = <<2, 26>>]
   [] k = "B" -> [Base(9, 7) EXCEPT !.ext = 1, !.glob = TRUE, !.pole = <<4, 28>>]
   [] k = "LG1" -> [Base(9, 6) EXCEPT !.ext = 1, !.glob = TRUE, !.pole = <<2, 26>>]
   [] k = "ZG2" -> [Base(6, 7) EXCEPT !.ext = 2, !.glob = TRUE, !.ax = <<0, 1, 3, 4, 6, 7>>, !.ay = <<-5, -4, -2, 0, 2, 4, 5>>, !.per = 8, !.pole = <<0, 32>>]
   [] k = "ZG1" -> [Base(7, 7) EXCEPT !.ext = 1, !.glob = TRUE, !.ax = <<0, 1, 3, 4, 5, 7, 8>>, !.ay = <<-5, -4, -2, -1, 1, 4, 5>>, !.per = 8, !.pole = <<0, 32>>]
   [] k = "G" -> [Base(8, 8) EXCEPT !.ext = 2, !.glob = TRUE]
   [] k = "AN" \/ k = "GN" -> [Base(8, 4) EXCEPT !.ext = 2, !.glob = TRUE, !.mir = 1]
   [] k = "AS" \/ k = "GS" -> [Base(8, 4) EXCEPT !.ext = 2, !.glob = TRUE, !.mir = 2]
   [] k = "BN" -> [Base(9, 4) EXCEPT !.ext = 1, !.glob = TRUE, !.mir = 3]
   [] k = "BS" -> [Base(9, 4) EXCEPT !.ext = 1, !.glob = TRUE, !.mir = 4]
Irregular == kind \in {"Z", "ZG1", "ZG2"}
Gauss == kind \in {"G", "GN", "GS"}
Regional == kind \in {"L", "Z"}
Big == IF kind \in {"ZG1", "ZG2"} THEN 4 ELSE 20
Field(d) == LET m == Rnd(0..9)  f == TLCEval([i \in 1..(g.ni * g.nj) |-> CASE m < 6 -> Rnd((0 - Big)..Big) [] m = 6 -> i % Big [] m = 7 -> i \div g.ni [] m = 8 -> Big [] OTHER -> IF Rnd(1..4) = 1 THEN Big ELSE 0])
            IN [i \in 1..(g.ni * g.nj) |-> IF g.ext = 1 /\ i % g.ni = 0 THEN f[i - g.ni + 1] ELSE f[i]]
StepOf == IF Irregular THEN 2 ELSE 1
LastX == IF g.ext = 2 THEN 4 * g.ni + 3 ELSE 4 * g.ni
Inside(lo, hi, exact) == {p \in lo..hi : p % StepOf = 0 /\ (p >= 0 \/ p % 4 # 2) /\ (exact \/ Irregular \/ p % 4 # 2)}
XY(n, exact) == [op |-> "xy", exact |-> exact, x4 |-> [i \in 1..n |-> Rnd(Inside(4, LastX, exact))], y4 |-> [i \in 1..n |-> Rnd(Inside(IF g.mir > 0 THEN 4 * FirstRow(g) ELSE 4, 4 * LastRow(g), exact))]]
RECURSIVE Asc(_, _)
Asc(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET v == Rnd(S) IN Asc({x \in S : x < v}, (n - 1) \div 2) \o <<v>> \o Asc({x \in S : x > v}, (n - 1) - ((n - 1) \div 2))
Two(s, S) == IF Len(s) >= 2 THEN s ELSE Asc(S, Cardinality(S))
OutX(in) == LET valued == opt.extrap \in {"maximum", "minimum", "value", "abort"}
            S == IF ~Regional \/ in \/ (opt.extrap = "cubic" /\ Irregular) THEN Inside(4, LastX, FALSE) ELSE Inside(IF valued THEN 0 ELSE 4, 4 * g.ni + 4, FALSE) IN Two(Asc(S, Rnd(3..6)), S)
OutY(in) == LET S == IF kind = "Z" /\ ~in /\ opt.extrap # "cubic" THEN Inside(0, 4 * g.nj + 4, FALSE) ELSE IF kind = "L" /\ ~in THEN Inside(0, 4 * g.nj + 4, FALSE) ELSE IF Regional THEN Inside(4, 4 * g.nj, FALSE)
                     ELSE Inside(g.pole[1], g.pole[2], FALSE) \cup {g.pole[1], g.pole[2]} IN Two(Asc(S, Rnd(3..6)), S)
SetO(n, v) == CASE n = "interp_degree" -> [opt EXCEPT !.interp = v] [] n = "extrap_degree" -> [opt EXCEPT !.extrap = IF v = "neutral" THEN opt.interp ELSE v] [] n = "polar_correction" -> [opt EXCEPT !.polar = (v = "yes")]
Degrees == {"nearest", "linear", "cubic"}
(* limited-area grids without correction extrapolate with the interpolation degree: keep the numbers small *)
SintOk == kind \in {"L", "Z", "A", "B", "ZG1", "ZG2", "LG1", "LG2"} /\ (opt.polar \/ kind # "Z")
GInit == /\ kind = "" /\ g = [ni |-> 0] /\ hist = <<>> /\ opt = [interp |-> "cubic", extrap |-> "maximum", value |-> 0, polar |-> TRUE]
GNext == Len(hist) < GDepth /\
   IF hist = <<>> THEN \E k \in {Rnd(Kinds)} : \E x \in {TLCEval(MakeGrid(k))} : kind' = k /\ g' = x /\ hist' = <<[op |-> "g", kind |-> k, g |-> x]>> /\ UNCHANGED opt
   ELSE UNCHANGED <<g, kind>> /\
   IF Len(hist) < 3 THEN \E z \in {TLCEval(Field(Len(hist)))} : hist' = Append(hist, [op |-> "f", s |-> Len(hist), z |-> z]) /\ UNCHANGED opt
   ELSE IF Len(hist) = 3 \/ Rnd(1..10) = 1 THEN \E d \in {Rnd(IF Gauss THEN {"nearest", "linear"} ELSE Degrees)} : opt' = SetO("interp_degree", d) /\ hist' = Append(hist, [op |-> "o", name |-> "interp_degree", value |-> d])
   ELSE \E m \in {Rnd(1..12)} :
     CASE m \in {1, 2} -> \E d \in {Rnd({"maximum", "minimum", "value", "abort", "nearest", "linear", "cubic", "neutral"})} : opt' = SetO("extrap_degree", d) /\ hist' = Append(hist, [op |-> "o", name |-> "extrap_degree", value |-> d])
       [] m = 3 -> \E v \in {Rnd(-99..99)} : opt' = [opt EXCEPT !.value = v] /\ hist' = Append(hist, [op |-> "v", value |-> v])
       [] m = 4 -> \E d \in {Rnd({"yes", "yes", "no"})} : opt' = SetO("polar_correction", d) /\ hist' = Append(hist, [op |-> "o", name |-> "polar_correction", value |-> d])
       [] m \in {5, 6} \/ (m > 6 /\ ~SintOk) -> \E e \in {TLCEval(XY(Rnd(3..10), TRUE))} : hist' = Append(hist, e @@ [f |-> Rnd({1, 2})]) /\ UNCHANGED opt
       [] m = 7 -> \E e \in {TLCEval(XY(Rnd(3..10), FALSE))} : hist' = Append(hist, e @@ [f |-> Rnd({1, 2})]) /\ UNCHANGED opt
       [] m = 8 /\ Regional -> \E xs \in {TLCEval(OutX(TRUE))}, ys \in {TLCEval(OutY(TRUE))} : hist' = Append(hist, [op |-> "uv", xs |-> xs, ys |-> ys]) /\ UNCHANGED opt
       [] OTHER -> \E xs \in {TLCEval(OutX(~opt.polar))}, ys \in {TLCEval(OutY(~opt.polar))} : hist' = Append(hist, [op |-> "sint", f |-> Rnd({1, 2}), xs |-> xs, ys |-> ys]) /\ UNCHANGED opt
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
