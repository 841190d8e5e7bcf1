---------------------------- MODULE EzIntTrace ----------------------------
EXTENDS EzInt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES gr, fl, opt, l
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NoOpt == [interp |-> "cubic", extrap |-> "maximum", value |-> 0, polar |-> TRUE]
SetOpt(e) == CASE e.name = "interp_degree" -> [opt EXCEPT !.interp = e.value]
               [] e.name = "extrap_degree" -> [opt EXCEPT !.extrap = IF e.value = "neutral" THEN opt.interp ELSE e.value]
               [] e.name = "polar_correction" -> [opt EXCEPT !.polar = (e.value = "yes")]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
G(s) == gr[s]
F(s) == fl[s]
Xy(e) == LET g == G(e.g) IN Len(e.out) = Len(e.x4) /\ \A i \in 1..Len(e.x4) : Near(e.out[i], Milli(Interp(Degree(opt), g, F(e.f), e.x4[i], e.y4[i], FALSE)), 15)
Sint(e) == LET g == G(e.g) IN
    IF e.go = e.g THEN e.rc = 1 /\ \A i \in 1..Len(e.out) : e.out[i] = 1000 * F(e.f)[i]
    ELSE e.rc = GridRc(opt, g, e.xs, e.ys) /\ (e.rc = -1 \/ (Len(e.out) = Len(e.xs) * Len(e.ys) /\
           \A j \in 1..Len(e.ys) : \A i \in 1..Len(e.xs) : Near(e.out[(j - 1) * Len(e.xs) + i], PointValue(opt, g, F(e.f), e.xs[i], e.ys[j]), 25)))
(* grids with the same orientation: the wind components are interpolated like scalars *)
Uv(e) == LET g == G(e.g) IN e.rc = 0 /\ \A j \in 1..Len(e.ys) : \A i \in 1..Len(e.xs) : LET n == (j - 1) * Len(e.xs) + i IN
           /\ Near(e.u[n], Milli(Interp(Degree(opt), g, F(e.fu), e.xs[i], e.ys[j], FALSE)), 40)
           /\ Near(e.v[n], Milli(Interp(Degree(opt), g, F(e.fv), e.xs[i], e.ys[j], FALSE)), 40)
(* the repeated column of a grid that goes round the earth is the first one *)
Inv(e) == \A i \in 1..Len(e.x4) : (Near(e.xb[i], 250 * e.x4[i], 15) \/ (G(e.g).ext = 1 /\ e.x4[i] \in {4, 4 * G(e.g).ni} /\ (Near(e.xb[i], 1000, 15) \/ Near(e.xb[i], 1000 * G(e.g).ni, 15)))) /\ Near(e.yb[i], 250 * e.y4[i], 15)
Rep(e) == Len(e.out) = Len(F(e.f)) /\ e.rc \in {0, 2} /\ \A i \in 1..Len(e.out) : Near(e.out[i], 1000 * F(e.f)[i], 60) /\ Near(e.val[i], 1000 * F(e.f)[i], 60)
(* any position inside (1024ths): nearest = the closest point unless two are about as close, linear = between the corners, and between them by the distances *)
RngPoint(g, z, x, y, v) == LET i == Clamp(x \div 1024, 1, IF g.ext = 2 THEN g.ni ELSE g.ni - 1)  j == Clamp(y \div 1024, 1, g.nj - 1)  dx == x - 1024 * i  dy == y - 1024 * j
                               c(a, b) == z[(j + b - 1) * g.ni + Col(g, i + a)] IN
    CASE opt.interp = "nearest" -> \E a, b \in {0, 1} : v = 1000 * c(a, b) /\ (IF a = 0 THEN dx <= 520 ELSE dx >= 504) /\ (IF b = 0 THEN dy <= 520 ELSE dy >= 504)
      [] opt.interp = "linear"  -> LET lo == ((1024 - dx) * c(0, 0) + dx * c(1, 0)) * 125  hi == ((1024 - dx) * c(0, 1) + dx * c(1, 1)) * 125 IN
                                     Near(v, ((lo \div 128) * (1024 - dy) + (hi \div 128) * dy) \div 1024, 80)
      [] opt.interp = "cubic" -> TRUE
Rng(e) == Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) : RngPoint(G(e.g), F(e.f), e.x[i], e.y[i], e.out[i])
Step(e) == CASE e.op = "g" -> e.id >= 0 /\ gr' = Put(gr, e.s, e.g) /\ UNCHANGED <<fl, opt>>
             [] e.op = "f" -> fl' = Put(fl, e.s, e.z) /\ UNCHANGED <<gr, opt>>
             [] e.op = "o" -> e.rc = 0 /\ opt' = SetOpt(e) /\ UNCHANGED <<gr, fl>>
             [] e.op = "v" -> e.rc = 0 /\ e.name = "extrap_value" /\ opt' = [opt EXCEPT !.value = e.value] /\ UNCHANGED <<gr, fl>>
             [] e.op = "xy" -> e.kept /\ e.guard /\ e.rc = 0 /\ (Xy(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] e.op = "sint" -> e.kept /\ e.guard /\ e.set >= 0 /\ (Sint(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] e.op = "uv" -> e.guard /\ (Uv(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] e.op = "inv" -> e.guard /\ e.kept /\ (Inv(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] e.op = "rep" -> e.guard /\ (Rep(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] e.op = "rng" -> e.guard /\ e.rc = 0 /\ (Rng(e) = TRUE) /\ UNCHANGED <<gr, fl, opt>>
             [] OTHER -> FALSE /\ UNCHANGED <<gr, fl, opt>>
TInit == gr = << >> /\ fl = << >> /\ opt = NoOpt /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ IF Trace[l].op = "reset" THEN gr' = << >> /\ fl' = << >> /\ opt' = NoOpt ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
