------------------------------- MODULE Vert -------------------------------
(* Vertical interpolation of the library (src/interpv): columns of source levels, strictly monotonic and all in the order
   of the first column, hold a state and its derivative; the level finder places every target level, the interpolators
   fill the destination column, the extrapolators then replace what lies outside.  Levels, targets and guides are integers;
   a state is a cubic polynomial of the level plus a bump at one source level; results are in units of 1/U, rounded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLE st
U == 16
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Near(a, b, d) == Abs(a - b) <= d
(*------------------------------------------------ columns *)
N(s) == Len(s.lev[1])
NC(s) == Len(s.lev)
NT(s) == Len(s.tgt[1])
Asc(x) == x[1] < x[2]
Lowest(x) == IF Asc(x) THEN 1 ELSE Len(x)
Highest(x) == IF Asc(x) THEN Len(x) ELSE 1
Monotone(x) == \A k \in 1..Len(x)-1 : IF Asc(x) THEN x[k] < x[k+1] ELSE x[k] > x[k+1]
Poly(p, x) == p[1] + x * (p[2] + x * (p[3] + x * p[4]))
DPoly(p, x) == p[2] + x * (2 * p[3] + x * 3 * p[4])
Val(s, c, k) == Poly(s.poly[c], s.lev[c][k]) + (IF s.bump[c][1] = k THEN s.bump[c][2] ELSE 0)
Der(s, c, k) == DPoly(s.poly[c], s.lev[c][k])
SetupOk(a) == /\ Len(a.lev) >= 1 /\ Len(a.lev[1]) >= 2
              /\ \A c \in 1..Len(a.lev) : Len(a.lev[c]) = Len(a.lev[1]) /\ Monotone(a.lev[c]) /\ (Asc(a.lev[c]) <=> Asc(a.lev[1]))
              /\ \A c \in 1..Len(a.lev) : Len(a.tgt[c]) = Len(a.tgt[1])
(*------------------------------------------------ the level finder *)
Between(x, t, i) == IF Asc(x) THEN x[i] <= t /\ t <= x[i+1] ELSE x[i] >= t /\ t >= x[i+1]
Inside(x, t) == x[Lowest(x)] <= t /\ t <= x[Highest(x)]
End(x, t) == IF (t < x[Lowest(x)]) = Asc(x) THEN 1 ELSE Len(x) - 1
Bracket(x, t) == IF Inside(x, t) THEN {i \in 1..Len(x)-1 : Between(x, t, i)} ELSE {End(x, t)}
(*------------------------------------------------ interpolators: what a result may be *)
Below(x, t) == t < x[Lowest(x)]
Above(x, t) == t > x[Highest(x)]
NearestOk(s, c, t, i, out) ==
  LET x == s.lev[c] d(k) == Abs(t - x[k])
  IN \E k \in {i, i + 1} : d(k) <= d(i) /\ d(k) <= d(i+1) /\ out = U * Val(s, c, k)
LinearOk(s, c, t, i, out) ==
  LET x == s.lev[c] h == x[i+1] - x[i]
      r == U * (Val(s, c, i+1) - Val(s, c, i)) * (t - x[i])
  IN Abs((out - U * Val(s, c, i)) * h - r) <= 2 * Abs(h) + Abs(r) \div 65536
Window(n, i) == LET f == Max(Min(i - 1, n - 3), 1) IN f..(f+3)
RECURSIVE Prod(_, _, _, _)
Prod(f(_), i, j, skip) == IF i > j THEN 1 ELSE (IF i = skip THEN 1 ELSE f(i)) * Prod(f, i + 1, j, skip)
LagrangeOk(s, c, t, i, out) ==
  LET x == s.lev[c] w == Window(Len(x), i) b == s.bump[c][1] e == out - U * Poly(s.poly[c], t)
      f == Max(Min(i - 1, Len(x) - 3), 1)
  IN IF b \notin w THEN Abs(e) <= 2
     ELSE LET num(j) == t - x[j] den(j) == x[b] - x[j]
              d == Prod(den, f, f + 3, b) r == U * s.bump[c][2] * Prod(num, f, f + 3, b)
          IN Abs(e * d - r) <= 2 * Abs(d) + Abs(r) \div 65536
HermiteOk(s, c, t, i, out, dout) ==
  LET x == s.lev[c] b == s.bump[c][1] e == out - U * Poly(s.poly[c], t) g == dout - U * DPoly(s.poly[c], t)
  IN IF b \notin {i, i + 1} THEN Abs(e) <= 2 /\ Abs(g) <= 2
     ELSE LET o == IF b = i THEN i + 1 ELSE i h == x[o] - x[b] d == t - x[b] h3 == h * h * h
              r == U * s.bump[c][2] * (h + 2 * d) * (h - d) * (h - d)
              q == -(U * s.bump[c][2] * 6 * d * (h - d))
          IN Abs(e * h3 - r) <= 2 * Abs(h3) + Abs(r) \div 65536 /\ Abs(g * h3 - q) <= 2 * Abs(h3) + Abs(q) \div 65536
(* the end value replaces what is outside unless extrapolation on that side is enabled *)
Clamped(a, x, t) == IF ~a.dn /\ Below(x, t) THEN Lowest(x) ELSE IF ~a.up /\ Above(x, t) THEN Highest(x) ELSE 0
OneOk(s, a, c, t) ==
  LET x == s.lev[c] y == s.tgt[c][t] i == s.pos[c][t] out == a.out[c][t] k == Clamped(a, x, y)
  IN CASE a.op = "nearest" -> NearestOk(s, c, y, i, out)
       [] a.op = "linear"  -> IF k > 0 THEN out = U * Val(s, c, k) ELSE LinearOk(s, c, y, i, out)
       [] a.op = "lagrange" -> IF k > 0 THEN out = U * Val(s, c, k) ELSE LagrangeOk(s, c, y, i, out)
       [] a.op = "hermite" -> IF k > 0 THEN out = U * Val(s, c, k) /\ a.dout[c][t] = U * Der(s, c, k)
                              ELSE HermiteOk(s, c, y, i, out, a.dout[c][t])
(*------------------------------------------------ extrapolators: act on the destination, outside only *)
Extrap(s, a, c, t) ==
  LET x == s.lev[c] y == s.tgt[c][t] lo == Lowest(x) hi == Highest(x)
  IN IF a.dn /\ Below(x, y) THEN (IF a.op = "fixed" THEN U * a.gd ELSE U * (Val(s, c, lo) + a.gd * (y - x[lo])))
     ELSE IF a.up /\ Above(x, y) THEN (IF a.op = "fixed" THEN U * a.gu ELSE U * (Val(s, c, hi) + a.gu * (y - x[hi])))
     ELSE s.dest[c][t]
(*------------------------------------------------ steps; every observation reports guard: cells outside the active ones intact *)
None == [lev |-> <<>>, tgt |-> <<>>, pos |-> <<>>, poly |-> <<>>, bump |-> <<>>, dest |-> <<>>]
Cells(s, f(_, _)) == [c \in 1..NC(s) |-> [t \in 1..NT(s) |-> f(c, t)]]
Step(a) ==
  CASE a.op = "setup" -> SetupOk(a) /\ st' = [lev |-> a.lev, tgt |-> a.tgt, poly |-> a.poly, bump |-> a.bump, pos |-> <<>>,
                                             dest |-> [c \in 1..Len(a.tgt) |-> [t \in 1..Len(a.tgt[1]) |-> U * a.init]]]
    [] a.op = "find" -> /\ a.guard
                        /\ \A c \in 1..NC(st), t \in 1..NT(st) : a.pos[c][t] \in Bracket(st.lev[c], st.tgt[c][t])
                        /\ st' = [st EXCEPT !.pos = a.pos]
    [] a.op \in {"nearest", "linear", "lagrange", "hermite"} ->
         /\ a.guard /\ st.pos # <<>>
         /\ IF a.op = "lagrange" /\ N(st) < 4 THEN a.out = st.dest    \* refused: nothing is written
            ELSE \A c \in 1..NC(st), t \in 1..NT(st) : OneOk(st, a, c, t)
         /\ st' = [st EXCEPT !.dest = a.out]
    [] a.op \in {"fixed", "lapse"} ->
         /\ a.guard /\ st.pos # <<>>
         /\ \A c \in 1..NC(st), t \in 1..NT(st) : Near(a.out[c][t], Extrap(st, a, c, t), 1)
         /\ st' = [st EXCEPT !.dest = a.out]
TypeOK == \A c \in 1..Len(st.lev) : Monotone(st.lev[c])
=============================================================================
