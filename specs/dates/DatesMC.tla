------------------------------- MODULE DatesMC -------------------------------
(* walks over the civil calendar day by day with the "tomorrow" rule alone, and checks every closed form of the specification against it:
   day numbers, the conversions, their order and their inverses, and the laws of the arithmetic in the three calendars *)
EXTENDS Dates, Json, Randomization
CONSTANTS Y0, Y1, Z0, Z1, Deep
VARIABLES y, m, d, n
cv == <<y, m, d, n>>
Init == /\ y \in {q \in (Y0..Y1) \cup (Z0..Z1) : q % 10 = 0} /\ m = 1 /\ d = 1 /\ n = 365 * y + Leaps(y)
        /\ nl = FALSE /\ cc = FALSE /\ lock = FALSE
Next == /\ ~(m = 12 /\ d = 31 /\ ((y + 1) % 10 = 0 \/ y = 10049))
        /\ n' = n + 1 /\ UNCHANGED <<nl, cc, lock>>
        /\ IF d < ML(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<cv, nl, cc, lock>>
(* closed forms; the ten-year walks meet *)
DayRight == Day(y, m, d) = n /\ Civil(n) = <<y, m, d>> /\ ((m = 12 /\ d = 31 /\ (y + 1) % 10 = 0) => n + 1 = 365 * (y + 1) + Leaps(y + 1))
Hs == IF Deep THEN {0, 1, 1439, 2880, 8640, 17279} ELSE {0, 1439, 8640}
Hr == {0, 720, 16560}
Pr(h) == <<PDate(n), PTime(h)>>
InYears(a, b) == y >= a /\ y <= b
(* printable -> stamp -> printable, printable -> true date -> printable, true date <-> stamp *)
Inverse == (Deep \/ d \in {1, 2, 15} \/ d > 27) => \A h \in Hs \cup Hr : LET p == PDate(n) t == PTime(h) hh == (h \div 720) * 720 IN
    /\ InYears(0, 9999) =>
         LET s == ND(3, 0, p, t) b == ND(-3, s[2], 0, 0) IN
         /\ s[1] = 0 /\ b[1] = 0 /\ StOk(s[2]) /\ b[2] = p
         /\ b[3] = IF InYears(1980, 2235) THEN t ELSE PTime(hh)
         /\ ND(-5, ND(5, 0, p, t)[2], 0, 0) = <<0, p, PTime(hh)>>
         /\ ND(-7, ND(7, 0, p, t)[2], 0, 0) = <<0, p, PTime(hh)>>
         /\ ND(6, 0, s[2], 0)[2] = X(<<n, h>>)
         /\ ND(-6, X(<<n, hh>>), 0, 0) = IF Special(p, PTime(hh)) THEN <<0, XStamp(SpecialH)>> ELSE <<0, StampP(p, PTime(hh))>>
    /\ (InYears(1900, 2235) /\ ~Special(p, t)) =>
         LET q == ND(2, 0, p, t) IN
         /\ q[1] = 0 /\ OfT(q[2]) = <<n, h>>
         /\ (y >= 1980 \/ h = hh) => /\ ND(-2, q[2], 0, 0) = <<0, p, t>>
                                     /\ ND(1, 0, ND(-1, q[2], 0, 3)[2], 0)[2] = q[2]
    /\ ~InYears(0, 9999) => ND(3, 0, p, t) = Bad
Order == \A h \in Hr : (InYears(0, 9999) /\ n > 0) =>
    /\ ND(7, 0, PDate(n), PTime(h))[2] = ND(7, 0, PDate(n - 1), PTime(h))[2] + 24
    /\ XStamp(X(<<n, h>>)) > XStamp(X(<<n - 1, h>>))
    /\ (y >= 2000 /\ y < 2236) => (New(T(<<n, h>>)) > New(T(<<n, h>>) - 1))
Refuse == /\ ND(3, 0, y * 10000 + m * 100 + ML(y, m) + 1, 0) = Bad /\ ND(3, 0, y * 10000 + d, 0) = Bad /\ ND(3, 0, y * 10000 + 1300 + d, 0) = Bad
          /\ ND(5, 0, PDate(n), 24000000) = Bad /\ ((InYears(1900, 1999) /\ m < 12) => ND(1, 0, OldStamp(<<n, 0>>, 0) + (ML(y, m) + 1 - d) * 100000, 0) = Bad)
(* adding and taking the difference are inverse, in every calendar, from every day of the calendar *)
Amts == IF Deep THEN {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<24, 0>>, <<-24, 0>>, <<8640, 0>>, <<-8760, 0>>, <<100000, 0>>, <<-1, 360>>, <<35063, 719>>} ELSE {<<1, 0>>, <<-24, 0>>, <<8760, 0>>, <<-1, 360>>, <<-35063, 719>>}
Arith == (InYears(1, 9990) /\ d \in {1, 28, 29, 30, 31} /\ (Deep \/ y % 20 \in {0, 19})) => \A cal \in {"greg", "365", "360"} : \A a \in Amts : \A h \in {0, 16560} :
    LET s == StampP(PDate(n), PTime(h)) q == CHOOSE q \in Inc(cal, s, a, FALSE) : TRUE
        whole == (y < 1980) \/ IsX(s) \/ IsX(q) IN
    (CalKnows(cal, <<y, m, d>>) /\ InYears(100, 9800) /\ (q = 101010101 => y # 1980)) =>
        /\ StOk(q) /\ Known(cal, q)
        /\ Dif(cal, q, s, FALSE) = IF whole /\ ~(IsNew(q) /\ IsNew(s)) THEN <<NInt(a), 0>> ELSE a
        /\ CalKnows(cal, Civil(StInst(q)[1]))
Laws == DayRight /\ Inverse /\ Order /\ Refuse /\ Arith
CalBij == (CalKnows("365", <<y, m, d>>) => FromCal("365", ToCal("365", n)) = n) /\ (CalKnows("360", <<y, m, d>>) => FromCal("360", ToCal("360", n)) = n)
(* random calls for the code *)
Rnd(S) == TLCEval(RandomElement(S))
RY(z) == CASE z = 1 -> Rnd({0, 1, 4, 99, 100, 400, 1899, 1900, 1901, 1904, 1979, 1980, 1999, 2000, 2004, 2100, 2235, 2236, 9999}) [] z = 2 -> Rnd(1895..2240) [] OTHER -> Rnd(0..9999)
RMD(z) == CASE z = 1 -> Rnd({101, 131, 228, 229, 230, 301, 430, 431, 531, 630, 731, 1130, 1231, 1231}) [] z = 2 -> Rnd(1..12) * 100 + Rnd(1..30) [] OTHER -> Rnd(0..13) * 100 + Rnd(0..32)
RT(z) == IF z < 3 THEN Rnd({0, 23}) * 1000000 + Rnd({0, 595955, 300000, 500, 300}) ELSE Rnd(0..24) * 1000000 + Rnd(0..59) * 10000 + Rnd(0..59) * 100
GInit == y = 0 /\ m = 0 /\ d = 0 /\ n = <<>> /\ nl = FALSE /\ cc = FALSE /\ lock = FALSE
GNext == /\ Len(n) < 60 /\ UNCHANGED <<nl, cc, lock, m, d, y>>
         /\ \E q \in {<<Rnd(1..3), Rnd(1..3), Rnd(1..5)>>} : \E p \in {RY(q[1]) * 10000 + RMD(q[2])} : \E t \in {RT(q[3])} :
            \E k \in {Rnd({"p", "p", "inc", "inc", "dif", "dif", "set", "grp"})} : n' = Append(n, [k |-> k, p |-> p, t |-> t])
Emit == Len(n) = 60 => PrintT("BEHAVIOUR " \o ToJson(n))
=============================================================================
