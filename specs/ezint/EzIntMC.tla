------------------------------ MODULE EzIntMC ------------------------------
(* laws of the interpolation function, checked exhaustively on small grids *)
EXTENDS EzInt
VARIABLES g, z, x4, y4, k
Regional == [ni |-> 4, nj |-> 4, ext |-> 0, glob |-> FALSE, ax |-> <<>>, ay |-> <<>>, per |-> 0, mir |-> 0, pole |-> <<0, 0>>]
Grids == { Regional,
           [Regional EXCEPT !.ax = <<0, 1, 3, 4>>, !.ay = <<1, 3, 5, 6>>],
           [Regional EXCEPT !.ext = 2, !.glob = TRUE, !.pole = <<2, 18>>],
           [Regional EXCEPT !.ni = 5, !.ext = 1, !.glob = TRUE, !.pole = <<2, 18>>],
           [Regional EXCEPT !.ext = 2, !.mir = 1], [Regional EXCEPT !.ni = 5, !.ext = 1, !.mir = 4],
           [Regional EXCEPT !.ext = 2, !.glob = TRUE, !.ax = <<0, 1, 3, 4>>, !.per = 6, !.pole = <<2, 18>>] }
Fields(n) == { [i \in 1..n |-> i], [i \in 1..n |-> IF i = k THEN 12 ELSE 0], [i \in 1..n |-> 7], [i \in 1..n |-> (i * i) % 5] }
MInit == /\ g \in Grids /\ k \in 1..(g.ni * g.nj)
         /\ z \in {IF g.ext = 1 THEN [i \in 1..(g.ni * g.nj) |-> IF (i % g.ni) = 0 THEN f[i - g.ni + 1] ELSE f[i]] ELSE f : f \in Fields(g.ni * g.nj)}
         /\ x4 \in IF g.ext = 2 THEN 4..(4 * g.ni + 3) ELSE 4..(4 * g.ni)
         /\ y4 \in 4..(4 * g.nj)
MNext == UNCHANGED <<g, z, x4, y4, k>>
Corner(di, dj) == LET i == Clamp(x4 \div 4, 1, IF g.ext = 2 THEN g.ni ELSE g.ni - 1)  j == Clamp(y4 \div 4, 1, g.nj - 1) IN z[(j + dj - 1) * g.ni + Col(g, i + di)]
Corners == {Corner(a, b) : a \in {0, 1}, b \in {0, 1}}
Leq(q, v) == q[1] <= v * q[2]
Geq(q, v) == q[1] >= v * q[2]
(* linear: between the surrounding values; nearest: a value at a distance of half a cell at most *)
LinearRange == LET q == Interp(1, g, z, x4, y4, FALSE) IN (\E v \in Corners : Leq(q, v)) /\ (\E v \in Corners : Geq(q, v))
NearestIsCorner == LET q == Interp(0, g, z, x4, y4, FALSE) IN q[2] = 1 /\ q[1] \in Corners
(* at a grid point every degree gives the value of the field, with or without polar rows *)
Reproduces == (x4 % 4 = 0 /\ y4 % 4 = 0 /\ x4 \div 4 <= g.ni) => \A d \in {0, 1, 3} : \A p \in {FALSE, g.glob} : Interp(d, g, z, x4, y4, p) = Norm(z[(y4 \div 4 - 1) * g.ni + x4 \div 4], 1)
(* fields that are affine functions of the axes are reproduced by linear and cubic interpolation *)
Affine == g.ext = 0 => LET f == [n \in 1..(g.ni * g.nj) |-> 3 * Axis(g.ax, ((n - 1) % g.ni) + 1) - 2 * Axis(g.ay, ((n - 1) \div g.ni) + 1) + 1]
                           i == Clamp(x4 \div 4, 1, g.ni - 1)  j == Clamp(y4 \div 4, 1, g.nj - 1)
                           X == 4 * Axis(g.ax, i) + (x4 - 4 * i) * (Axis(g.ax, i + 1) - Axis(g.ax, i))
                           Y == 4 * Axis(g.ay, j) + (y4 - 4 * j) * (Axis(g.ay, j + 1) - Axis(g.ay, j))
                       IN /\ Interp(1, g, f, x4, y4, FALSE) = Norm(3 * X - 2 * Y + 4, 4)
                          /\ (g.ax = <<>> \/ (x4 % 2 = 0 /\ y4 % 2 = 0)) => Interp(3, g, f, x4, y4, FALSE) = Norm(3 * X - 2 * Y + 4, 4)
Constant == (\A i \in 1..Len(z) : z[i] = z[1]) => \A d \in {0, 1, 3} : \A p \in {FALSE, g.glob} : Interp(d, g, z, x4, y4, p) = Norm(z[1], 1)
=============================================================================
