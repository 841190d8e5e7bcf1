-------------------------------- MODULE Dates --------------------------------
(* Dates: the civil (proleptic Gregorian) calendar, the two alternative calendars, the date stamps and the arithmetic on them.
   A day is numbered from 0000-01-01; an instant is a pair <<day, units>>, a unit being 5 seconds. *)
EXTENDS Integers, Sequences, TLC

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
ML(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= ML(y, m)
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365>>
Leaps(y) == ((y + 3) \div 4) - ((y + 99) \div 100) + ((y + 399) \div 400)         \* leap years in 0..y-1
Day(y, m, d) == 365 * y + Leaps(y) + Cum[m] + d - 1 + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
YearOf(n) == LET a == (n * 400) \div 146097 IN CHOOSE y \in {a - 1, a, a + 1} : Day(y, 1, 1) <= n /\ n < Day(y + 1, 1, 1)
Civil(n) == LET y == YearOf(n)
                m == CHOOSE q \in 1..12 : Day(y, q, 1) <= n /\ n - Day(y, q, 1) < ML(y, q)
            IN <<y, m, n - Day(y, m, 1) + 1>>
JulianOffset == 1721060
D1980 == 723180  D1900 == 693961  D2000 == 730485  D2236 == 816682  D10k == 3652425

(* --- the calendars: every one numbers its own days; the dates it knows are dates of the civil calendar *)
Cum360 == <<0, 31, 59, 90, 120, 150, 180, 210, 240, 270, 300, 330, 360>>
CC(cal) == IF cal = "360" THEN Cum360 ELSE Cum
YL(cal) == IF cal = "360" THEN 360 ELSE 365
CalKnows(cal, c) == CASE cal = "greg" -> TRUE [] OTHER -> c[3] <= CC(cal)[c[2]+1] - CC(cal)[c[2]]
ToCal(cal, n) == IF cal = "greg" THEN n ELSE LET c == Civil(n) IN YL(cal) * c[1] + CC(cal)[c[2]] + c[3] - 1
FromCal(cal, k) == IF cal = "greg" THEN k
                   ELSE LET y == k \div YL(cal) o == k % YL(cal)
                            m == CHOOSE q \in 1..12 : CC(cal)[q] <= o /\ o < CC(cal)[q+1]
                        IN Day(y, m, o - CC(cal)[m] + 1)
UD == 17280                                                       \* units in a day
Plus(cal, x, days, units) ==                                      \* instant x plus days and units, in a calendar
    LET u == x[2] + units IN <<FromCal(cal, ToCal(cal, x[1]) + days + (u \div UD)), u % UD>>
HalfUp(cal, x) == LET u == ((x[2] + 360) \div 720) * 720 IN IF u >= UD THEN Plus(cal, <<x[1], 0>>, 1, 0) ELSE <<x[1], u>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* --- basic true dates: units since 1980-01-01, for 1900..2235; extended: hours since 0000-01-01, for years 0..9999 *)
TMin == -504904320  TMax == 1615714559  T2000 == 126230400  XMax == 87658199
TOk(t) == t >= TMin /\ t <= TMax /\ (t < 0 => t % 720 = 0)
T(x) == (x[1] - D1980) * UD + x[2]
InT(x) == x[1] >= D1900 /\ x[1] < D2236
OfT(t) == <<D1980 + (t \div UD), t % UD>>
XOk(h) == h >= 0 /\ h <= XMax
X(x) == x[1] * 24 + (x[2] \div 720)
OfX(h) == <<h \div 24, (h % 24) * 720>>
Special(p, t) == p = 19010101 /\ t = 1000000                      \* 1901-01-01 01Z is always written extended

(* --- printable YYYYMMDD, HHMMSShh *)
PDate(n) == LET c == Civil(n) IN c[1] * 10000 + c[2] * 100 + c[3]
PTime(u) == (u \div 720) * 1000000 + ((u % 720) \div 12) * 10000 + (u % 12) * 500
PY(p) == p \div 10000  PM(p) == (p \div 100) % 100  PD(p) == p % 100
PSec(t) == ((t \div 10000) % 100) * 60 + ((t \div 100) % 100)       \* seconds after the hour
PHour(t) == t \div 1000000
PUnits(t) == PHour(t) * 720 + PSec(t) \div 5
POk(p, t, y1, y2) == p >= 0 /\ PY(p) >= y1 /\ PY(p) <= y2 /\ Valid(PY(p), PM(p), PD(p)) /\ PHour(t) <= 23
PInst(p, t) == <<Day(PY(p), PM(p), PD(p)), PUnits(t)>>

(* --- stamps.  old: MMDDYYHHR below 123200000; new: 10 * (units \div 8) + units % 8 above; extended: stored as negative integers *)
Base == 123200000
XBase == -1294967296
New(t) == Base + (t \div 8) * 10 + (t % 8)
XStamp(h) == XBase + (h \div 8) * 10 + (h % 8)
OldStamp(x, run) == LET c == Civil(x[1]) IN c[2] * 10000000 + c[3] * 100000 + (c[1] - 1900) * 1000 + (x[2] \div 720) * 10 + run
IsX(s) == s < -1
IsNew(s) == s >= Base
XNum(s) == ((s - XBase) \div 10) * 8 + ((s - XBase) % 10)
XStOk(s) == s < -1 /\ s >= XBase /\ (s - XBase) % 10 < 8 /\ XNum(s) <= XMax
NewNum(s) == ((s - Base) \div 10) * 8 + ((s - Base) % 10)
OY(s) == 1900 + ((s \div 1000) % 100)  OM(s) == (s \div 10000000) % 100  OD(s) == (s \div 100000) % 100  OH(s) == (s \div 10) % 100
BStOk(s) == IF s < 0 THEN FALSE ELSE IF IsNew(s) THEN NewNum(s) <= TMax ELSE Valid(OY(s), OM(s), OD(s)) /\ OH(s) <= 23
StOk(s) == XStOk(s) \/ BStOk(s)
Alias(s) == (IsNew(s) /\ (s - Base) % 10 > 7) \/ (s < -1 /\ s >= XBase /\ (s - XBase) % 10 > 7)        \* no stamp has these last digits
StInst(s) == IF IsX(s) THEN OfX(XNum(s)) ELSE IF IsNew(s) THEN OfT(NewNum(s)) ELSE <<Day(OY(s), OM(s), OD(s)), OH(s) * 720>>
Run(s) == IF IsX(s) \/ IsNew(s) THEN 0 ELSE s % 10
StampT(t, run) == IF t >= T2000 \/ t % 720 # 0 THEN New(t) ELSE OldStamp(OfT(t), run)
SpecialH == 16663825
StampX(h) == IF h = SpecialH \/ ~InT(OfX(h)) THEN XStamp(h) ELSE StampT(T(OfX(h)), 0)
StampP(p, t) ==                                                    \* mode 3: 0 when refused (no stamp is 0)
    IF Special(p, t) \/ PY(p) < 1900 \/ PY(p) > 2235
    THEN IF POk(p, t, 0, 9999) THEN XStamp(X(PInst(p, t))) ELSE 0
    ELSE IF ~POk(p, t, 1900, 2235) THEN 0
    ELSE IF PY(p) >= 2000 \/ (PY(p) >= 1980 /\ PSec(t) # 0) THEN New(T(PInst(p, t))) ELSE OldStamp(PInst(p, t), 0)

(* --- newdate: <<refused (1) or not (0), the values given back>> *)
Bad == <<1>>
ND(mode, a, b, c) ==
  CASE mode = 1  -> IF BStOk(b) THEN <<0, T(StInst(b)), Run(b)>> ELSE Bad                       \* stamp -> true date, run
    [] mode = -1 -> IF TOk(a) /\ c \in 0..9 THEN <<0, StampT(a, c)>> ELSE Bad
    [] mode = 2  -> IF Special(b, c) THEN <<0, SpecialH>> ELSE IF POk(b, c, 1900, 2235) THEN <<0, T(PInst(b, c))>> ELSE Bad
    [] mode = -2 -> IF TOk(a) \/ a > TMax THEN <<0, PDate(OfT(a)[1]), PTime(OfT(a)[2])>> ELSE Bad
    [] mode = 3  -> IF StampP(b, c) # 0 THEN <<0, StampP(b, c)>> ELSE Bad
    [] mode = -3 -> IF StOk(a) THEN <<0, PDate(StInst(a)[1]), PTime(StInst(a)[2])>> ELSE Bad
    [] mode = 5  -> IF POk(b, c, 0, 9999) THEN <<0, XStamp(X(PInst(b, c)))>> ELSE Bad
    [] mode = -5 -> IF XStOk(a) THEN <<0, PDate(StInst(a)[1]), PTime(StInst(a)[2])>> ELSE Bad
    [] mode = 6  -> IF StOk(b) THEN <<0, X(StInst(b)), Run(b)>> ELSE Bad
    [] mode = -6 -> IF XOk(a) THEN <<0, StampX(a)>> ELSE Bad
    [] mode = 7  -> IF POk(b, c, 0, 9999) THEN <<0, X(PInst(b, c))>> ELSE Bad
    [] mode = -7 -> IF XOk(a) THEN <<0, PDate(OfX(a)[1]), PTime(OfX(a)[2])>> ELSE Bad
    [] OTHER -> Bad

(* --- 14-word groups *)
WeekDay(n) == 1 + ((n + 6) % 7)
Mgp(s) == LET x == IF StOk(s) THEN StInst(s) ELSE StInst(101010101)
              c == Civil(x[1])
          IN <<WeekDay(x[1]), c[2], c[3], c[1], x[2] \div 720, (x[2] % 720) * 500>>
Mg2(w) == LET y == IF w[4] \in 0..99 THEN w[4] + 1900 ELSE w[4]       \* w[5] hour, w[6] hundredths of a second after the hour
              p == y * 10000 + w[2] * 100 + w[3]
              t == w[5] * 1000000 + (w[6] \div 6000) * 10000 + ((w[6] \div 100) % 60) * 100
              s == StampP(p, t)
          IN IF s = 0 THEN 101010101 ELSE s

(* --- arithmetic; an amount is <<hours, units>> with units in 0..719 *)
NInt(a) == IF a[1] >= 0 THEN a[1] + (IF a[2] >= 360 THEN 1 ELSE 0) ELSE a[1] + (IF a[2] > 360 THEN 1 ELSE 0)   \* half away from zero
Known(cal, s) == StOk(s) => CalKnows(cal, Civil(StInst(s)[1]))
(* the stamps that a call may give; a stamp before 1980 holds no minutes, so amounts are whole hours there *)
Far(cal, x, a) == LET r == Plus(cal, x, NInt(a) \div 24, (NInt(a) % 24) * 720) IN
                  IF r[1] < 0 \/ r[1] >= D10k THEN 101010101 ELSE StampX(X(r))
Inc(cal, s, a, round) ==
    IF ~StOk(s) THEN {101010101}
    ELSE IF IsX(s) THEN {Far(cal, StInst(s), a)}
    ELSE LET x == StInst(s)
             whole == round \/ T(x) < 0
             b == IF whole THEN HalfUp(cal, x) ELSE x
             n == IF whole THEN NInt(a) ELSE a[1]
             r == Plus(cal, b, n \div 24, (n % 24) * 720 + (IF whole THEN 0 ELSE a[2]))
             hour == <<x[1], (x[2] \div 720) * 720>>
         IN IF InT(r) THEN (IF TOk(T(r)) THEN {StampT(T(r), Run(s))} ELSE {101010101})
            ELSE {Far(cal, hour, a)} \cup (IF whole THEN {Far(cal, b, a)} ELSE {})
(* the difference <<hours, units>>; <<2^30, 0>> when refused *)
NoDif == <<1073741824, 0>>
Dif(cal, s1, s2, round) ==
    IF ~StOk(s1) \/ ~StOk(s2) THEN NoDif
    ELSE LET hourly == IsX(s1) \/ IsX(s2)
             F(s) == LET x == StInst(s) IN IF hourly THEN <<x[1], (x[2] \div 720) * 720>> ELSE IF round THEN HalfUp(cal, x) ELSE x
             p == F(s1) q == F(s2) u == p[2] - q[2]
         IN <<(ToCal(cal, p[1]) - ToCal(cal, q[1])) * 24 + (u \div 720), u % 720>>

(* --- the calendar in force: two switches; the environment, when it names a calendar, prevails *)
VARIABLES nl, cc, lock
Cal(n, c) == IF c THEN "360" ELSE IF n THEN "365" ELSE "greg"
Set(o) == IF lock THEN UNCHANGED <<nl, cc>> ELSE CASE o = "365_day" -> nl' = TRUE /\ cc' = FALSE [] o = "360_day" -> nl' = TRUE /\ cc' = TRUE [] o = "gregorian" -> nl' = FALSE /\ cc' = FALSE [] OTHER -> UNCHANGED <<nl, cc>>
Unset(o) == IF lock THEN UNCHANGED <<nl, cc>>
            ELSE LET n == IF o = "365_day" THEN FALSE ELSE IF o = "gregorian" THEN TRUE ELSE nl
                     c == IF o = "360_day" THEN FALSE ELSE cc
                 IN nl' = n /\ cc' = (c /\ ~n)
=============================================================================
