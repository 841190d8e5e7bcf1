---------------------------------- MODULE Ip ----------------------------------
(* level and time parameters (IP1, IP2, IP3): the codes of a (value, kind) pair, old and new style, what a code means,
   the triplets with a range, and the records that a parameter in "any encoding" designates.
   a value is a decimal number <<m, e>> = m * 10^e, 0 being <<0, 0>>, m not a multiple of 10, |m| < 10^8 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
P10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
Pow(n) == P10[n + 1]
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF Abs(m) % 10 = 0 THEN Norm(IF m < 0 THEN -(Abs(m) \div 10) ELSE m \div 10, e + 1) ELSE <<m, e>>
V(n) == Norm(n, 0)
Digits(m) == LET a == Abs(m) IN IF a < 1000 THEN (IF a = 0 THEN 0 ELSE IF a < 10 THEN 1 ELSE IF a < 100 THEN 2 ELSE 3) ELSE IF a < 1000000 THEN (IF a < 10000 THEN 4 ELSE IF a < 100000 THEN 5 ELSE 6)
             ELSE IF a < 10000000 THEN 7 ELSE IF a < 100000000 THEN 8 ELSE IF a < 1000000000 THEN 9 ELSE 10
Neg(v) == <<-v[1], v[2]>>
Sgn(v) == IF v[1] > 0 THEN 1 ELSE IF v[1] < 0 THEN -1 ELSE 0
(* magnitudes *)
MLess(a, b) == LET da == Digits(a[1]) + a[2] db == Digits(b[1]) + b[2] IN
               IF da # db THEN da < db ELSE Abs(a[1]) * Pow(9 - Digits(a[1])) < Abs(b[1]) * Pow(9 - Digits(b[1]))
Less(a, b) == IF Sgn(a) # Sgn(b) THEN Sgn(a) < Sgn(b) ELSE IF Sgn(a) = 0 THEN FALSE ELSE IF Sgn(a) > 0 THEN MLess(a, b) ELSE MLess(b, a)
Leq(a, b) == ~Less(b, a)
Scale(v, k) == IF v[1] = 0 THEN v ELSE <<v[1], v[2] + k>>

(* --- kinds: range, and the meaning of the code's bits *)
Kinds == {0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 17, 21}
Low(k) == CASE k \in {0, 4} -> V(-20000) [] k = 3 -> V(-480000000) [] k \in {6, 17} -> V(1) [] OTHER -> V(0)
High(k) == CASE k \in {0, 4} -> V(100000) [] k \in {1, 5} -> V(1) [] k = 2 -> V(1100) [] k \in {3, 10, 17} -> <<1, 10>>
             [] k = 6 -> V(200000) [] k = 7 -> V(20000) [] k = 15 -> V(2000000) [] k = 21 -> V(1000000)
InRange(k, v) == k \in Kinds /\ Leq(Low(k), v) /\ Leq(v, High(k))
IsLevel(k) == k \in (0..7) \cup {21}
Ascending(k) == k \in {0, 4, 21}
Descending(k) == k \in {1, 2, 7}
Hours == 10
(* the coded number: kind 17 shares the bits of kind 1 (sign changed), kind 21 those of kind 5 (times 10^4) *)
Coded(k, v) == CASE k = 17 -> Neg(IF Less(v, V(1)) THEN V(1) ELSE v) [] k = 21 -> (IF Less(v, <<1001, -7>>) THEN <<1001, -3>> ELSE Scale(v, 4)) [] k = 6 -> (IF Less(v, V(1)) THEN V(1) ELSE v) [] OTHER -> v
Bits(k) == k % 16

(* --- new style: kind, decimal exponent x (the number is mantissa * 10^(4-x)), 6-digit mantissa; a negative number has 4800..48000 coded above 10^6 *)
Lim(neg) == IF neg THEN 48000 ELSE 1000000
LimLow(neg) == IF neg THEN 4800 ELSE 100000
(* integers within half a unit of |m| * 10^s; the halves either way, to within what a 32-bit real holds *)
Near(m, s) == IF m = 0 THEN {0} ELSE IF s >= 0 THEN (IF s > 7 \/ Digits(m) + s > 8 THEN {} ELSE {m * Pow(s)})
              ELSE IF -s > 9 \/ -s > Digits(m) THEN {0}
              ELSE LET u == Pow(-s) q == m \div u r == m % u z == IF Digits(m) > 6 THEN u \div 8 ELSE 0
                   IN IF u = 1 THEN {m} ELSE (IF 2 * r <= u + (2 * z) THEN {q} ELSE {}) \cup (IF 2 * r >= u - (2 * z) THEN {q + 1} ELSE {})
NewOf(k, c) ==
    LET neg == c[1] < 0 m == Abs(c[1]) IN
    UNION {{(Bits(k) * 16777216) + (x * 1048576) + (IF neg /\ q > 0 THEN 1000000 + q ELSE q) :
              q \in Near(m, c[2] + x - 4)} : x \in {x \in 0..15 : (x = 15 \/ (Digits(m) + c[2] + x - 4 \in 4..7)) /\ LET t == Norm(m, c[2] + x - 4) IN Leq(t, V(Lim(neg))) /\ (x = 15 \/ Leq(V(LimLow(neg)), t))}}
Bad == -999999
(* kind 15: an integer *)
Round0(v) == IF v[1] < 0 THEN {-q : q \in Near(-v[1], v[2])} ELSE Near(v[1], v[2])
Enc15(v) == IF v[1] # 0 /\ Digits(v[1]) + v[2] > 8 THEN {-1} ELSE {IF n \in 0..2000000 THEN (15 * 16777216) + n ELSE -1 : n \in Round0(v)}
EncNew(k, v) ==
    IF k < 0 \/ (k > 31 /\ k % 16 # 15) THEN {Bad}
    ELSE IF k > 15 /\ k % 16 = 15 THEN {-1}
    ELSE IF k \notin Kinds THEN {}
    ELSE IF k = 2 /\ v = V(0) THEN {0}
    ELSE IF k = 15 THEN Enc15(v)
    ELSE IF ~InRange(k, v) THEN {Bad}
    ELSE IF k = 17 /\ Less(V(480000000), v) THEN {-1}      (* no code: a sign-changed number stops there *)
    ELSE NewOf(k, Coded(k, v))
(* --- old style: 15 bits *)
Seg(base, s, v, lo, hi) == IF Leq(lo, v) /\ Leq(v, hi) THEN {base + q : q \in {q \in Near(2 * v[1], v[2] + s) : q < 200}} ELSE {}
EncOld(k, v) ==
    CASE k = 2 /\ v = V(0) -> {0}
      [] k = 0 -> IF Leq(v, V(0)) THEN {12001} ELSE IF Leq(V(99995), v) THEN {32000} ELSE {12001 + q : q \in Near(2 * v[1], v[2] - 1)}
      [] k = 1 -> IF InRange(1, v) THEN {2000 + q : q \in Near(v[1], v[2] + 4)} ELSE {Bad}
      [] k = 2 -> IF Less(v, V(0)) \/ Leq(V(1100), v) THEN {Bad}
                  ELSE UNION {IF Leq(<<9975, -3>>, v) THEN Near(v[1], v[2]) ELSE {},
                              Seg(1800, 1, v, <<9975, -4>>, <<9975, -3>>), Seg(1600, 2, v, <<9975, -5>>, <<9975, -4>>), Seg(1400, 3, v, <<9975, -6>>, <<9975, -5>>),
                              Seg(1200, 4, v, <<999999, -9>>, <<9975, -6>>), IF Less(v, <<999999, -9>>) THEN {0} ELSE {}}
      [] k = 3 -> IF v[1] # 0 /\ Digits(v[1]) + v[2] > 8 THEN {Bad} ELSE {IF n \in 0..100 THEN 1200 - n ELSE Bad : n \in Round0(v)}
      [] OTHER -> {Bad}

(* --- what a code means: <<kind, value>>, kind -1 when it is not a code *)
None == <<-1, Norm(-999999, 0)>>
Mant(ip) == LET q == ip % 1048576 IN IF q > 1000000 THEN -(q - 1000000) ELSE q
Number(ip) == LET q == Mant(ip) x == (ip \div 1048576) % 16 IN Norm(q, 4 - x)
IsNewCode(ip) == ip > 32767
Clip(k, v) == CASE k \in {6, 17} /\ Less(v, <<1001, -3>>) -> V(1) [] k = 21 /\ Less(v, <<1002001, -10>>) -> V(0) [] OTHER -> v
Dec(ip) ==
    IF IsNewCode(ip) THEN
        LET b == (ip \div 16777216) % 16 n == Number(ip) IN
        IF b = 15 THEN (IF ip \div 16777216 = 15 /\ ip % 16777216 <= 2000000 THEN <<15, V(ip % 16777216)>> ELSE None)
        ELSE IF b \notin Kinds THEN None
        ELSE IF InRange(b, n) THEN <<b, Clip(b, n)>>
        ELSE IF b = 1 /\ InRange(17, Neg(n)) THEN <<17, Clip(17, Neg(n))>>
        ELSE IF b = 5 /\ InRange(21, Scale(n, -4)) THEN <<21, Clip(21, Scale(n, -4))>>
        ELSE None
    ELSE CASE ip > 12000 /\ ip <= 32000 -> <<0, V(5 * (ip - 12001))>>
           [] ip >= 2000 /\ ip <= 12000 -> <<1, Norm(ip - 2000, -4)>>
           [] ip >= 0 /\ ip < 1100 -> <<2, V(ip)>>
           [] ip > 1200 /\ ip < 1400 -> <<2, Norm(5 * (ip - 1200), -5)>>
           [] ip >= 1400 /\ ip < 1600 -> <<2, Norm(5 * (ip - 1400), -4)>>
           [] ip >= 1600 /\ ip < 1800 -> <<2, Norm(5 * (ip - 1600), -3)>>
           [] ip >= 1800 /\ ip < 2000 -> <<2, Norm(5 * (ip - 1800), -2)>>
           [] ip >= 1100 /\ ip <= 1200 -> <<3, V(1200 - ip)>>
           [] OTHER -> <<3, V(ip)>>
(* six digits: what a code can hold *)
Unit(k) == CASE k = 0 -> " m" [] k = 1 -> "sg" [] k = 2 -> "mb" [] k = 3 -> "  " [] k = 4 -> " M" [] k = 5 -> "hy" [] k = 6 -> "th" [] k = 7 -> "m-" [] k = 10 -> " H" [] k = 15 -> "_0" [] k = 17 -> "[]" [] k = 21 -> "mp" [] k \in 0..30 -> "??" [] k \in 0..159 /\ k % 16 = 15 -> (IF k = 31 THEN "_1" ELSE "I" \o ToString(k \div 16)) [] OTHER -> "!!"

(* --- triplets. a group is <<lo, hi, kind>>. flags *)
OK == 0  GoodGuess == 2  BadGuess == 4  TerribleGuess == 8  Warning == 32  Error == 64
Higher(k, a, b) == (Ascending(k) /\ Less(b, a)) \/ (Descending(k) /\ Less(a, b))     (* a is higher in the atmosphere than b *)
(* the three (value, kind) pairs of an encoding with a range: <<level, time, third>>, or <<>> when it is refused *)
Pairs(g1, g2, g3) ==
    LET r1 == g1[1] # g1[2] r2 == g2[1] # g2[2] IN
    IF ~IsLevel(g1[3]) \/ g2[3] # Hours \/ (r1 /\ r2) \/ (~r1 /\ ~r2 /\ g3[3] \notin Kinds) THEN <<>>
    ELSE LET l == IF r1 /\ Higher(g1[3], g1[1], g1[2]) THEN <<g1[2], g1[1]>> ELSE <<g1[1], g1[2]>>    (* lower first *)
             t == IF r2 /\ Less(g2[1], g2[2]) THEN <<g2[2], g2[1]>> ELSE <<g2[1], g2[2]>>             (* end first *)
         IN <<<<l[1], g1[3]>>, <<t[1], Hours>>, IF r1 THEN <<l[2], g1[3]>> ELSE IF r2 THEN <<t[2], Hours>> ELSE <<g3[1], g3[3]>>>>
Ips(p) == {<<a, b, c>> : a \in EncNew(p[1][2], p[1][1]), b \in EncNew(p[2][2], p[2][1]), c \in EncNew(p[3][2], p[3][1])}
EncTriple(g1, g2, g3, st, ips) ==
    \E p \in {Pairs(g1, g2, g3)} :
       IF p = <<>> THEN st = Error
       ELSE \/ st = OK /\ ips \in Ips(p) /\ \A i \in 1..3 : ips[i] >= 0
            \/ st = Error /\ \E q \in Ips(p) : \E i \in 1..3 : q[i] < 0
Nothing == <<V(0), V(0), -1>>
One(d) == <<d[2], d[2], d[1]>>
DecTriple(a, b, c, st, g) ==
    IF a < 0 \/ b < 0 \/ c < 0 THEN st \div Error = 1
    ELSE \E d1 \in {Dec(a)}, d2 \in {IF b > 32767 THEN Dec(b) ELSE <<Hours, V(b)>>}, d3 \in {IF c > 32767 THEN Dec(c) ELSE <<3, V(c)>>} :
      IF ~IsLevel(d1[1]) \/ d2[1] # Hours \/ d3[1] = -1 THEN st \div Error = 1
      ELSE /\ st = (IF a <= 32767 \/ b <= 32767 THEN GoodGuess ELSE 0) + (IF c <= 32767 THEN TerribleGuess ELSE 0)
           /\ g = (IF c > 32767 /\ d3[1] = Hours
                     THEN <<One(d1), IF Less(d3[2], d2[2]) THEN <<d3[2], d2[2], Hours>> ELSE <<d2[2], d3[2], Hours>>, Nothing>>
                   ELSE IF c > 32767 /\ d3[1] = d1[1]
                     THEN <<IF Higher(d1[1], d1[2], d3[2]) THEN <<d3[2], d1[2], d1[1]>> ELSE <<d1[2], d3[2], d1[1]>>, One(d2), Nothing>>
                   ELSE <<One(d1), One(d2), One(d3)>>)
(* the looser form: three pairs; a level may stand in second position (warned) *)
PK(p, st, ips) ==
    IF (\E i \in 1..3 : p[i][2] \notin Kinds) \/ ~IsLevel(p[1][2]) \/ ~(IsLevel(p[2][2]) \/ p[2][2] = Hours) THEN st \div Error = 1
    ELSE LET p1 == p[1]
             q == IF p1[2] = p[2][2] /\ p[3][2] = Hours THEN <<p1, p[3], p[2]>> ELSE p
             o == IF q[3][2] = p1[2] /\ q[2][2] = Hours /\ Higher(p1[2], p1[1], q[3][1]) THEN <<q[3], q[2], p1>>
                  ELSE IF q[2][2] = Hours /\ q[3][2] = Hours /\ Less(q[2][1], q[3][1]) THEN <<p1, q[3], q[2]>> ELSE q
         IN \/ st = (IF IsLevel(p[2][2]) THEN Warning ELSE OK) /\ ips \in Ips(o) /\ \A i \in 1..3 : ips[i] >= 0
            \/ st \div Error = 1 /\ \E z \in Ips(o) : \E i \in 1..3 : z[i] < 0
IPK(a0, b0, c, st, g) ==
    IF a0 < 0 \/ b0 < 0 \/ c < 0 THEN st \div Error = 1
    ELSE \E sw \in {Dec(a0)[1] = Hours} : \E a \in {IF sw THEN b0 ELSE a0}, b \in {IF sw THEN a0 ELSE b0} :
         \E d1 \in {Dec(a)}, d2 \in {IF b > 32767 THEN Dec(b) ELSE <<Hours, V(b)>>}, d3 \in {IF c > 32767 THEN Dec(c) ELSE <<3, V(c)>>} :
      IF ~IsLevel(d1[1]) \/ ~(d2[1] = Hours \/ IsLevel(d2[1])) \/ d3[1] = -1 THEN st \div Error = 1
      ELSE /\ st = (IF a <= 32767 \/ b <= 32767 THEN GoodGuess ELSE 0) + (IF c <= 32767 THEN TerribleGuess ELSE 0) + (IF sw \/ d2[1] # Hours THEN Warning ELSE 0)
           /\ \E e2 \in {IF d1[1] = d2[1] /\ d3[1] = Hours THEN d3 ELSE d2}, e3 \in {IF d1[1] = d2[1] /\ d3[1] = Hours THEN d2 ELSE d3} :
                g = (IF d1[1] = e3[1] /\ Higher(d1[1], d1[2], e3[2]) THEN <<e3, e2, d1>>
                     ELSE IF e2[1] = Hours /\ e3[1] = Hours /\ Less(e2[2], e3[2]) THEN <<d1, e3, e2>> ELSE <<d1, e2, e3>>)

(* --- records designated by a parameter given in all its encodings. recs: triplets of ips on file, in order *)
Tens == <<0, 1820, 1840, 1860, 1880, 1900, 1920, 1940, 1960, 1980>>
(* same number in another mantissa and exponent, to one unit of the finer one *)
SameCode(x, y) == \/ x = y \/ (x \in 0..9 /\ Tens[x + 1] = y)
                  \/ /\ IsNewCode(x) /\ IsNewCode(y) /\ (x \div 16777216) % 16 = (y \div 16777216) % 16
                     /\ \E ex \in {(x \div 1048576) % 16}, ey \in {(y \div 1048576) % 16} :
                        LET f == IF ex > ey THEN x ELSE y o == IF ex > ey THEN y ELSE x d == Abs(ex - ey) IN
                        \/ Number(x) = Number(y)
                        \/ d <= 6 /\ (Digits(Mant(o)) + d <= 9) /\ Abs((Mant(o) * Pow(d)) - Mant(f)) <= 1 /\ (Mant(o) < 0) = (Mant(f) < 0)
                        \/ Mant(o) = 0 /\ Abs(Mant(f)) <= 1 /\ Mant(f) >= 0
(* the codes of the pairs asked for *)
VARIABLES recs, ask      (* ask: for each position, the list of codes recorded; empty = compared as given *)
PosOk(i, want, have) == IF ask[i] # <<>> /\ want >= 0 THEN \E j \in 1..Len(ask[i]) : SameCode(have, ask[i][j]) ELSE want = -1 \/ ask[i] # <<>> \/ want = have
Match(want, n) == \A i \in 1..3 : PosOk(i, want[i], recs[n][i])
Found(want, from) == LET S == {n \in (from + 1)..Len(recs) : Match(want, n)} IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A k \in S : n <= k
===============================================================================
