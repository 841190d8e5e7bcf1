--------------------------------- MODULE IpMC ---------------------------------
(* every code means one pair, the codes of a pair mean that pair to within their resolution, the triplets keep each pair in its place *)
EXTENDS Ip, Json, Randomization
CONSTANTS Deep
VARIABLE c
Ms == IF Deep THEN UNION {{n, -n} : n \in (1..99) \cup {101, 105, 999, 1001, 4799, 4801, 9975, 47999, 48001, 99999, 100001, 123455, 123456, 999998, 999999, 1234565, 9999994, 9999995, 9999996}}
      ELSE UNION {{n, -n} : n \in {1, 2, 5, 7, 9, 11, 12, 48, 85, 99, 105, 999, 1001, 4799, 9975, 47999, 48001, 123455, 999999, 1234565, 9999995}}
Es == IF Deep THEN -14..9 ELSE {-12, -9, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 4, 8}
Pairs0 == {<<"pair", k, Norm(m, e)>> : k \in Kinds, m \in Ms \cup {0}, e \in Es}
Codes0 == {<<"code", b, (x * 1048576) + q>> : b \in 0..15, x \in 0..15, q \in {0, 1, 9, 10, 4800, 99999, 100000, 100001, 110000, 123456, 480000, 900000, 999999, 1000000, 1000001, 1004799, 1004800, 1012345, 1048000, 1048001, 1048575}}
Old0 == {<<"old", 0, n>> : n \in IF Deep THEN 0..32767 ELSE {n \in 0..32767 : n < 2100 \/ n % 97 = 0 \/ n \in 11990..12010 \/ n > 31990}}
MInit == c \in Pairs0 \cup Codes0 \cup Old0 /\ recs = <<>> /\ ask = <<<<>>, <<>>, <<>>>>
MNext == UNCHANGED <<c, recs, ask>>
Spec == MInit /\ [][MNext]_<<c, recs, ask>>
(* |a - b| <= half of 10^u, for a, b of the same sign; exact on the digits kept *)
Within(a, b, u) == a = b \/ \E lo \in {IF a[2] < b[2] THEN (IF a[2] < u - 1 THEN a[2] ELSE u - 1) ELSE (IF b[2] < u - 1 THEN b[2] ELSE u - 1)} :
      LET fa == Digits(a[1]) + a[2] - lo fb == Digits(b[1]) + b[2] - lo IN
      \/ (fa > 9 \/ fb > 9)      (* more digits than the model's numbers hold: not examined *)
      \/ LET A == a[1] * Pow(a[2] - lo) B == b[1] * Pow(b[2] - lo) IN u - lo > 8 \/ 10 * (Abs(A - B) \div 10) <= (Pow(u - lo) \div 2) + (Pow(u - lo) \div 8)
Back(k, d) == d = k
PairLaw == c[1] = "pair" => LET k == c[2] v == c[3] E == EncNew(k, v) IN
    /\ E # {}
    /\ (~InRange(k, v) /\ k # 15) => E = {Bad}
    /\ (InRange(k, v) /\ k # 15 /\ ~(k = 2 /\ v = V(0)) /\ E # {-1}) => \A ip \in E :
         /\ ip > 32767 \/ (k = 0 /\ Mant(ip) = 0)
         /\ \E d \in {Dec(ip)} : \E w \in {d[2]} :
              /\ Back(k, d[1]) \/ (k = 21 /\ Less(v, <<1002001, -10>>)) \/ (k = 21 /\ Leq(v, <<1, -4>>))
              /\ InRange(k, w)
              /\ w = v \/ (k \in {6, 17} /\ w = V(1) /\ Less(v, <<1002, -3>>)) \/ (k = 21 /\ w = V(0) /\ Less(v, <<11, -4>>))
                 \/ \E x \in {(ip \div 1048576) % 16} : Within(w, v, 4 - x - (IF k = 21 THEN 4 ELSE 0))
    /\ (E # {-1} /\ Digits(v[1]) <= (IF Coded(k, v)[1] < 0 THEN 4 ELSE 6) /\ InRange(k, v) /\ v[2] >= -6 /\ k \notin {6, 15, 17, 21}) => \A ip \in E : Dec(ip)[2] = v \/ v[2] < -9
    /\ (k = 15 /\ InRange(k, v) /\ v[2] >= 0) => \A ip \in E : Dec(ip) = <<15, v>>
(* a valid code, in its canonical form, is the code of what it means *)
Canonical(b, n) == LET q == n % 1048576 x == n \div 1048576 m == IF q > 1000000 THEN q - 1000000 ELSE q lo == LimLow(q > 1000000) hi == Lim(q > 1000000) IN m >= lo /\ m < hi
CodeLaw == c[1] = "code" => LET ip == (c[2] * 16777216) + c[3] d == Dec(ip) IN
    (IsNewCode(ip) /\ d # None /\ d[1] # 15) =>
       /\ d[1] \in Kinds /\ InRange(d[1], d[2])
       /\ (Canonical(c[2], c[3]) /\ Clip(d[1], IF d[1] = 17 THEN Neg(Number(ip)) ELSE IF d[1] = 21 THEN Scale(Number(ip), -4) ELSE Number(ip)) = (IF d[1] = 17 THEN Neg(Number(ip)) ELSE IF d[1] = 21 THEN Scale(Number(ip), -4) ELSE Number(ip))) => ip \in EncNew(d[1], d[2])
       /\ d[2] # V(0) => \A j \in EncNew(d[1], d[2]) : j = -1 \/ Dec(j)[1] = d[1]
OldLaw == c[1] = "old" => LET d == Dec(c[3]) IN
    /\ d[1] \in 0..3
    /\ (c[3] \notin {1400, 1600, 1800} \cup (1201..1219) \cup (1401..1419) \cup (1601..1619) \cup (1801..1819) \cup (1..9) /\ c[3] <= 32000 /\ (d[1] # 0 \/ c[3] > 12000)) => c[3] \in EncOld(d[1], d[2])
    /\ (d[1] < 3 \/ Less(d[2], V(101))) => \A o \in EncOld(d[1], d[2]) : Dec(o)[1] = d[1] /\ (Dec(o)[2] = d[2] \/ c[3] \in (1201..1219) \cup {1401})
(* a level with a range or a time with a range, encoded then decoded *)
Tm == {V(0), V(6), V(24), <<15, -1>>}
TripleLaw == (c[1] = "pair" /\ IsLevel(c[2]) /\ InRange(c[2], c[3]) /\ Digits(c[3][1]) <= 4 /\ c[3][2] \in -4..2) =>
    \A w \in {V(1), c[3]} : \A t \in {V(6)} : \A t2 \in {V(6), V(24)} :
      LET k == c[2] g1 == <<c[3], w, k>> g2 == <<t, t2, Hours>> g3 == <<V(1), V(1), 3>> p == Pairs(g1, g2, g3) IN
      IF w # c[3] /\ t # t2 THEN p = <<>>
      ELSE \A ips \in Ips(p) : (\A i \in 1..3 : ips[i] > 32767) =>
             /\ DecTriple(ips[1], ips[2], ips[3], 0, <<IF w # c[3] /\ Higher(k, c[3], w) THEN <<w, c[3], k>> ELSE g1, g2, IF w = c[3] /\ t = t2 /\ k # 3 THEN g3 ELSE Nothing>>)
                \/ (k = 3 /\ w = c[3] /\ t = t2) \/ (w # c[3] /\ ~Ascending(k) /\ ~Descending(k) /\ FALSE)
                \/ (k \in {6, 21} /\ (Less(c[3], <<1002, -3>>)))
             /\ w # c[3] /\ (Ascending(k) \/ Descending(k)) => ~Higher(k, Dec(ips[1])[2], Dec(ips[3])[2])
Laws == PairLaw /\ CodeLaw /\ OldLaw /\ TripleLaw
(* calls for the code *)
Rnd(S) == TLCEval(RandomElement(S))
GInit == c = <<>> /\ recs = <<>> /\ ask = <<<<>>, <<>>, <<>>>>
GNext == \E k \in {Rnd(Kinds)} : \E m \in {Rnd(Ms)} : \E e \in {Rnd(Es)} : \E n \in {Rnd(Ms)} : \E o \in {Rnd({"code", "code", "level", "range", "pk"})} :
           c' = Append(c, [k |-> k, m |-> IF m < 0 /\ k \notin {0, 3, 4} THEN -m ELSE m, e |-> e, n |-> IF n < 0 /\ k \notin {0, 3, 4} THEN -n ELSE n, o |-> IF o # "code" /\ ~IsLevel(k) THEN "code" ELSE o]) /\ UNCHANGED <<recs, ask>>
Emit == Len(c) = 60 => PrintT("BEHAVIOUR " \o ToJson(c))
===============================================================================
