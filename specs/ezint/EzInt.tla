------------------------------- MODULE EzInt -------------------------------
(* Horizontal interpolation of ezscint, in exact integer/rational arithmetic.
   Positions are index coordinates in quarters (x4 = 4 * x, first point of the grid = 4), field values are integers.
   A grid g: [ni, nj, ext, glob, ax, ay]
     ext   0 = limited area, 1 = goes round the earth with the first column repeated at the end, 2 = goes round without repetition
     glob  the poles are reached through the rows added before the first and after the last one (mean of the row)
     ax,ay positions of the columns / rows in some integer unit ( <<>> = equidistant)
     per   length of the turn in the unit of ax
     mir   rows of the other hemisphere: 0 none, 1 / 2 northern / southern grid whose first / last row is half a step from the equator,
           3 / 4 northern / southern grid with a row at the equator
     pole  positions (quarters) of the south and north pole *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

Abs(a) == IF a < 0 THEN 0 - a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(a, lo, hi) == Max2(lo, Min2(a, hi))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
(* rationals: <<n, d>>, d > 0 *)
Norm(n, d) == LET h == Gcd(n, d) IN IF n = 0 THEN <<0, 1>> ELSE IF d < 0 THEN <<(0 - n) \div h, (0 - d) \div h>> ELSE <<n \div h, d \div h>>
(* value in thousandths, rounded down *)
Milli(q) == LET f == q[1] \div q[2]  r == q[1] % q[2] IN f * 1000 + (IF q[2] > 2000000 THEN r \div (q[2] \div 1000) ELSE (r * 1000) \div q[2])

Period(g) == IF g.ext = 2 THEN g.ni ELSE g.ni - 1          \* columns in one turn
Col(g, i) == IF g.ext = 0 THEN i ELSE ((i - 1) % Period(g)) + 1
Axis(a, i) == IF a = <<>> THEN i ELSE IF i < 1 THEN a[1] - (1 - i) * (a[2] - a[1]) ELSE IF i > Len(a) THEN a[Len(a)] + (i - Len(a)) * (a[Len(a)] - a[Len(a) - 1]) ELSE a[i]
AxisX(g, i) == IF g.ext = 0 THEN Axis(g.ax, i) ELSE
               IF g.ax = <<>> THEN i ELSE g.ax[Col(g, i)] + g.per * ((i - 1) \div Period(g))
AxisY(g, j) == IF g.ay = <<>> THEN j ELSE IF j < 1 THEN g.ay[1] - (1 - j) * (g.ay[2] - g.ay[1]) ELSE IF j > g.nj THEN g.ay[g.nj] + (j - g.nj) * (g.ay[g.nj] - g.ay[g.nj - 1]) ELSE g.ay[j]
(* field with its polar rows, times ni so that the mean is an integer *)
RowSum(g, z, j) == Sum([i \in 1..g.ni |-> z[(j - 1) * g.ni + i]])
Row(g, j) == CASE g.mir = 1 /\ j < 1 -> 1 - j [] g.mir = 3 /\ j < 1 -> 2 - j [] g.mir = 2 /\ j > g.nj -> 2 * g.nj + 1 - j [] g.mir = 4 /\ j > g.nj -> 2 * g.nj - j [] OTHER -> j
FirstRow(g) == CASE g.mir = 1 -> 1 - g.nj [] g.mir = 3 -> 2 - g.nj [] OTHER -> 1
LastRow(g) == CASE g.mir = 2 -> 2 * g.nj [] g.mir = 4 -> 2 * g.nj - 1 [] OTHER -> g.nj
Val(g, z, i, j) == IF j = 0 THEN RowSum(g, z, 1) ELSE IF j = g.nj + 1 THEN RowSum(g, z, g.nj) ELSE g.ni * z[(j - 1) * g.ni + Col(g, i)]
ValP(g, z, i, j, poles) == IF poles THEN Val(g, z, i, j) ELSE z[(Row(g, j) - 1) * g.ni + Col(g, i)]

(* nearest column or row of a position *)
Nint(p) == (p + 2) \div 4
NearCol(g, x4) == LET i == Nint(x4) IN IF g.ext = 2 /\ i = g.ni + 1 THEN 1 ELSE Clamp(i, 1, g.ni)
(* one-dimensional weights: sequence of <<index, numerator>> and a common denominator *)
LinX(g, x4) == LET i == Clamp(x4 \div 4, 1, IF g.ext = 2 THEN g.ni ELSE g.ni - 1)  d == x4 - 4 * i IN [w |-> << <<i, 4 - d>>, <<i + 1, d>> >>, d |-> 4]
LinY(lo, hi, y4) == LET j == Clamp(y4 \div 4, lo, hi - 1)  d == y4 - 4 * j IN [w |-> << <<j, 4 - d>>, <<j + 1, d>> >>, d |-> 4]
Lagrange(i, p, a) ==                         \* p = 4 * position in units of the axis a[1..4], columns i-1 .. i+2
    LET num(k) == LET J == {1, 2, 3, 4} \ {k}  m == CHOOSE x \in J : \A y \in J : x <= y  M == CHOOSE x \in J : \A y \in J : x >= y  c == CHOOSE x \in J : x # m /\ x # M IN
                  Norm((p - 4 * a[m]) * (p - 4 * a[c]) * (p - 4 * a[M]), 64 * (a[k] - a[m]) * (a[k] - a[c]) * (a[k] - a[M]))
        q == [k \in 1..4 |-> num(k)]
        D == Lcm(Lcm(q[1][2], q[2][2]), Lcm(q[3][2], q[4][2]))
    IN [w |-> [k \in 1..4 |-> <<i + k - 2, q[k][1] * (D \div q[k][2])>>], d |-> D]
CubX(g, x4) == LET i == IF g.ext = 0 THEN Clamp(x4 \div 4, 2, g.ni - 2) ELSE Clamp(x4 \div 4, 1, g.ni - 2 + g.ext)
                   a == [k \in 1..4 |-> AxisX(g, i + k - 2)]
                   c == IF g.ext = 0 THEN Clamp(x4 \div 4, 1, g.ni - 1) ELSE i       \* column of the cell of the point
               IN Lagrange(i, 4 * AxisX(g, c) + (x4 - 4 * c) * (AxisX(g, c + 1) - AxisX(g, c)), a)
CubY(g, lo, hi, y4) == LET j == Clamp(y4 \div 4, lo + 1, hi - 2)
                   a == [k \in 1..4 |-> AxisY(g, j + k - 2)]
                   c == Clamp(y4 \div 4, lo, hi - 1)
               IN Lagrange(j, 4 * AxisY(g, c) + (y4 - 4 * c) * (AxisY(g, c + 1) - AxisY(g, c)), a)
Combine(g, z, X, Y, poles) ==
    LET row(j) == Sum([k \in 1..Len(X.w) |-> X.w[k][2] * ValP(g, z, X.w[k][1], j, poles)])
    IN Norm(Sum([k \in 1..Len(Y.w) |-> IF Y.w[k][2] = 0 THEN 0 ELSE Y.w[k][2] * row(Y.w[k][1])]), X.d * Y.d * (IF poles THEN g.ni ELSE 1))
(* value of the field z of grid g at a position, degree 0, 1 or 3; poles = use the polar rows *)
Interp(deg, g, z, x4, y4, poles) ==
    LET lo == IF poles THEN 0 ELSE FirstRow(g)   hi == IF poles THEN g.nj + 1 ELSE LastRow(g) IN
    CASE deg = 0 -> Norm(ValP(g, z, NearCol(g, x4), Clamp(Nint(y4), lo, hi), poles), IF poles THEN g.ni ELSE 1)
      [] deg = 1 -> Combine(g, z, LinX(g, x4), LinY(lo, hi, y4), poles)
      [] deg = 3 -> Combine(g, z, CubX(g, x4), CubY(g, lo, hi, y4), poles)

(* ---- interpolation to a grid, with the options ---- *)
Outside(g, x4, y4) == LET i == Nint(x4)  j == Nint(y4) IN ~g.glob /\ (i < 1 \/ j < 1 \/ i > g.ni \/ j > g.nj)
MinF(z) == CHOOSE v \in {z[i] : i \in 1..Len(z)} : \A i \in 1..Len(z) : v <= z[i]
MaxF(z) == CHOOSE v \in {z[i] : i \in 1..Len(z)} : \A i \in 1..Len(z) : v >= z[i]
ExtrapValue(o, g, z, x4, y4) ==              \* in thousandths
    CASE o.extrap = "maximum" -> 1000 * MaxF(z) + 50 * (MaxF(z) - MinF(z))
      [] o.extrap = "minimum" -> 1000 * MinF(z) - 50 * (MaxF(z) - MinF(z))
      [] o.extrap = "value"   -> 1000 * o.value
      [] OTHER -> Milli(Interp(CASE o.extrap = "nearest" -> 0 [] o.extrap = "linear" -> 1 [] o.extrap = "cubic" -> 3, g, z, x4, y4, FALSE))
Degree(o) == CASE o.interp = "nearest" -> 0 [] o.interp = "linear" -> 1 [] o.interp = "cubic" -> 3
AtPole(g, y4) == g.glob /\ (y4 = g.pole[1] \/ y4 = g.pole[2])
PoleValue(g, z, y4) == Norm(RowSum(g, z, IF y4 = g.pole[2] THEN g.nj ELSE 1), g.ni)
PointValue(o, g, z, x4, y4) ==
    IF ~o.polar THEN Milli(Interp(Degree(o), g, z, x4, y4, FALSE))
    ELSE IF Outside(g, x4, y4) THEN ExtrapValue(o, g, z, x4, y4)
    ELSE IF AtPole(g, y4) THEN Milli(PoleValue(g, z, y4))
    ELSE Milli(Interp(Degree(o), g, z, x4, y4, g.glob))
AnyOutside(g, xs, ys) == \E i \in 1..Len(xs), j \in 1..Len(ys) : Outside(g, xs[i], ys[j])
GridRc(o, g, xs, ys) == IF o.polar /\ AnyOutside(g, xs, ys) THEN (IF o.extrap = "abort" THEN -1 ELSE 2) ELSE 0
=============================================================================
