------------------------------- MODULE PackMC -------------------------------
(* A reference codec for each family of data types, checked exhaustively on
   small fields: what it returns satisfies the fidelity each type promises,
   and the code reserved for missing elements is never that of a value.       *)
EXTENDS Pack, Json
CONSTANTS MaxV, Len0, Bits, GDepth
VARIABLES hist
mvars == <<recs, op, hist>>
Min2(a, b) == IF a < b THEN a ELSE b
\* all values times 100, so that the room left for missing elements is an integer
Plug(r) == IF r.mf /\ (\E i \in 1..Len(r.F) : r.F[i] = MV)
           THEN 100 * SetMax(Vals(r.F) \cup (IF Vals(r.F) = {} THEN {0} ELSE {})) + Extent(r.F) * MissNum(r.dt, r.nb) + (IF Extent(r.F) = 0 THEN 100 ELSE 0)
           ELSE 0
Enc(r) == {IF r.F[i] = MV THEN Plug(r) ELSE 100 * r.F[i] : i \in 1..Len(r.F)}
Lo(r) == SetMin(Enc(r))
R0(r) == SetMax(Enc(r)) - Lo(r)
X(r, i) == (IF r.F[i] = MV THEN Plug(r) ELSE 100 * r.F[i]) - Lo(r)
\* smallest power of two (of hundredths of units: 100*2^k) above the range
RECURSIVE P100(_, _)
P100(p, x) == IF p > x THEN p ELSE P100(2 * p, x)
CodeQ(r, i) == (X(r, i) * Pow(r.nb)) \div P100(100, R0(r))
\* smallest power of two s such that the range fits nb bits once divided by s
RECURSIVE ShiftS(_, _, _)
ShiftS(s, x, m) == IF x \div s <= m THEN s ELSE ShiftS(2 * s, x, m)
SL(r) == ShiftS(1, R0(r), Pow(r.nb) - 1)
CodeL(r, i) == Min2(Pow(r.nb) - 1, (X(r, i) + SL(r) \div 2) \div SL(r))
TopCode(r, C(_, _)) == SetMax({C(r, j) : j \in 1..Len(r.F)})
HasPlug(r) == r.mf /\ \E i \in 1..Len(r.F) : r.F[i] = MV
IsMiss(r, i, C(_, _)) == HasPlug(r) /\ C(r, i) = TopCode(r, C)
DecQ(r) == [i \in 1..Len(r.F) |-> IF IsMiss(r, i, CodeQ) THEN MV
              ELSE (64 * Lo(r) + (64 * CodeQ(r, i) * P100(100, R0(r))) \div Pow(r.nb)) \div 100]
DecL(r) == [i \in 1..Len(r.F) |-> IF IsMiss(r, i, CodeL) THEN MV
              ELSE (64 * Lo(r) + 64 * CodeL(r, i) * SL(r)) \div 100]
RECURSIVE LeadP(_, _)
LeadP(p, x) == IF 2 * p > x THEN p ELSE LeadP(2 * p, x)
Lead(x, nb) == IF x = 0 THEN 0 ELSE LET u == (64 * LeadP(1, AbsV(x))) \div Pow(nb - 9) q == IF u = 0 THEN 1 ELSE u
                                        t == ((64 * AbsV(x)) \div q) * q IN IF x < 0 THEN -t ELSE t
DecR(r) == [i \in 1..Len(r.F) |-> IF r.F[i] = MV THEN MV ELSE Lead(r.F[i], r.nb)]
Dec(r) == CASE Kind(r.dt, r.nb) = "quant" -> DecQ(r)
            [] Kind(r.dt, r.nb) = "linear" -> DecL(r)
            [] Kind(r.dt, r.nb) = "relative" -> DecR(r)
            [] Kind(r.dt, r.nb) = "exact" -> [i \in 1..Len(r.F) |-> IF r.F[i] = MV THEN MV ELSE 64 * r.F[i]]
            [] OTHER -> r.F
Fields(mf) == [1..Len0 -> (0 - 2)..MaxV \cup (IF mf THEN {MV} ELSE {})]
MInit == PInit /\ hist = <<>>
MWrite == /\ Len(recs) = 0 /\ op = <<>>
          /\ \E dt \in {1, 6, 5, 2, 4}, nb \in Bits, mf \in BOOLEAN :
               /\ (Base(dt) = 5 => nb >= 10)
               /\ (dt = 6 /\ mf => nb >= 2)
               /\ \E F \in Fields(mf) :
                    \E r \in {[dt |-> dt, nb |-> nb, es |-> 4, dims |-> <<Len0, 1, 1>>, F |-> F, mf |-> mf]} :
                       InDomain(r) = TRUE /\ Write(r, 1, TRUE)
MRead == \E k \in 1..Len(recs) : Dec(recs[k]) # recs[k].seen /\ \E G \in {Dec(recs[k])} :
            recs' = [recs EXCEPT ![k].seen = G] /\ op' = <<"r", k>>
MNext == (MWrite \/ MRead) /\ UNCHANGED hist
Faithful == \A k \in 1..Len(recs) : recs[k].seen # <<>> => Fid(recs[k], recs[k].seen)
Apart == \A k \in 1..Len(recs) : recs[k].mf => \A i \in 1..Len(recs[k].F) : (Dec(recs[k])[i] = MV) <=> (recs[k].F[i] = MV)

(* --- behaviours to replay: which field is written how, and read when --- *)
Rnd(S) == TLCEval(RandomElement(S))
Shapes == {<<1, 1, 1>>, <<2, 1, 1>>, <<7, 1, 1>>, <<5, 4, 1>>, <<3, 3, 3>>, <<16, 16, 1>>, <<17, 20, 1>>, <<20, 17, 2>>, <<40, 23, 1>>, <<33, 31, 1>>, <<64, 8, 1>>, <<1, 50, 1>>, <<16, 17, 3>>, <<30, 20, 1>>}
GenBits(dt) == CASE dt = 801 -> 1..30 [] Base(dt) = 5 -> (10..32) \cup {32, 64} [] Base(dt) = 1 -> 1..32 [] OTHER -> 1..32
TopOf(dt, nb, mf) == IF dt = 801 \/ IsReal(dt) THEN (IF mf THEN 16000 ELSE 1000000)
              ELSE (IF Base(dt) = 4 THEN (IF nb >= 31 THEN 1073741823 ELSE Pow(nb - 1) - 1) ELSE (IF nb >= 31 THEN 2147483646 ELSE Pow(nb) - 1)) - (IF mf THEN 1 ELSE 0)
A(x) == hist' = Append(hist, x)
GWrite ==
  \E dt \in {Rnd({1, 2, 4, 5, 6, 801, 129, 130, 132, 133, 134, 1, 2, 129, 130, 134})} :
  \E mf \in {Rnd({FALSE, FALSE, TRUE})}, sh \in {Rnd(Shapes)}, pat \in {Rnd(0..12)}, seed \in {Rnd(1..9999)}, b0 \in {Rnd(1..1000)} :
  \E nb \in {IF b0 % 3 = 0 THEN Rnd(GenBits(dt)) ELSE Rnd(GenBits(dt) \cap (1..16))} :
  \E es \in {IF ~IsReal(dt) THEN (IF nb <= 8 THEN Rnd({1, 2, 4, 4}) ELSE IF nb <= 16 THEN Rnd({2, 4}) ELSE 4)
             ELSE IF dt = 801 THEN 8 ELSE IF dt \in {1, 129} /\ nb <= 30 THEN Rnd({4, 4, 8}) ELSE 4} :
  \E top \in {TopOf(dt, nb, mf)} :
  \E hi \in {IF Rnd(1..2) = 1 THEN top ELSE Rnd({x \in {0, 1, 5, 100, 4000, 65535, 300000} : x <= top} \cup {top})} :
  \E lo \in {IF IsReal(dt) \/ Base(dt) = 4 THEN Rnd({0, -hi, hi \div 2, hi, hi - 1 - hi \div 16}) ELSE Rnd({0, hi \div 2, hi})} :
  \E sc \in {IF IsReal(dt) THEN Rnd({0, 0, -10, 5, -30, 20}) ELSE 0} :
  \E miss \in {IF mf THEN Rnd({0, 5, 100, 500, 999, 1000}) ELSE -1} :
     IF mf /\ ((dt = 6 /\ nb < 2) \/ (nb < 2 /\ Base(dt) \in {2, 4}) \/ top < 1 \/ (IsReal(dt) /\ Base(dt) = 5 /\ nb < 32) \/ nb > 30)
     THEN A(<<"reopen">>)
     ELSE A(<<"w", dt, nb, es, sh[1], sh[2], sh[3], pat, seed, IF lo > hi THEN hi ELSE lo, hi, sc, miss>>)
GRaw ==
  \E dt \in {Rnd({0, 3, 7, 8, 128, 131, 135})}, sh \in {Rnd(Shapes)}, seed \in {Rnd(1..9999)}, mode \in {Rnd(0..2)} :
  \E nb \in {CASE Base(dt) = 0 -> Rnd({1, 8, 12, 16, 32, 64}) [] Base(dt) = 8 -> Rnd({32, 64}) [] OTHER -> 8} :
     A(<<"x", dt, nb, IF Base(dt) \in {3, 7} THEN 1 ELSE IF nb = 64 THEN 8 ELSE 4, sh[1], sh[2], sh[3], seed, mode>>)
GRead == \E back \in {Rnd({0, 0, 0, 1, 2, 5, 9})} : A(<<"r", back, 0>>)
GInit == MInit
GNext == /\ Len(hist) < GDepth
         /\ \E o \in {Rnd(1..20)} : IF o <= 8 THEN GWrite ELSE IF o <= 10 THEN GRaw ELSE IF o <= 19 THEN GRead ELSE A(<<"reopen">>)
         /\ UNCHANGED <<recs, op>>
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
