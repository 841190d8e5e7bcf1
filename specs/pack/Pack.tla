-------------------------------- MODULE Pack --------------------------------
(* C05: a standard file as a store of typed fields.  A field written with a
   data type dt, a number of bits nb and elements of es bytes is a function
   F : 1..ni*nj*nk -> integers (for real types the number of units of 2^sc),
   or MV where the value is missing.  Reading it yields G, in the same units
   (64ths of them for real types); what G may be is decided by the type.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES recs, op
vars == <<recs, op>>
MV == -2147483647
Base(dt) == dt % 64
AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE P2a(_, _)
P2a(p, r) == IF p > r THEN p ELSE P2a(2 * p, r)
P2(r) == P2a(1, r)                       \* smallest power of two above r
Pow(n) == IF n <= 0 THEN 1 ELSE IF n >= 30 THEN 1073741824 ELSE 2^n
SetMax(s) == CHOOSE x \in s : \A y \in s : y <= x
SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y
Vals(F) == {F[i] : i \in 1..Len(F)} \ {MV}

(* --- the data types --- *)
IsReal(dt) == dt = 801 \/ Base(dt) \in {1, 5, 6}
IsRaw(dt) == dt # 801 /\ Base(dt) \in {0, 3, 7, 8}
Kind(dt, nb) ==
  IF dt = 801 THEN (IF nb >= 31 THEN "exact" ELSE "quant")
  ELSE CASE Base(dt) \in {0, 3, 7, 8} -> "raw"
         [] Base(dt) = 1 /\ nb <= 30 -> "quant"
         [] Base(dt) = 1 -> "exact"                       \* written as IEEE
         [] Base(dt) = 6 /\ nb <= 16 -> "linear"
         [] Base(dt) = 6 /\ nb <= 24 -> "quant"
         [] Base(dt) = 6 -> "exact"                       \* written as IEEE
         [] Base(dt) = 5 /\ nb >= 32 -> "exact"
         [] Base(dt) = 5 -> "relative"
         [] OTHER -> "integer"

(* extra room taken by the code that marks missing elements *)
MissNum(dt, nb) == IF nb > 8 THEN 2 ELSE <<310, 105, 45, 21, 10, 5, 3, 2>>[nb]    \* hundredths
Exact(F, G) == \A i \in 1..Len(F) : F[i] # MV => G[i] = 64 * F[i]
\* largest and smallest values present, 0 and 0 when there are none
MaxMin(F) == LET m == FoldLeft(LAMBDA a, x : IF x = MV THEN a ELSE <<IF x > a[1] THEN x ELSE a[1], IF x < a[2] THEN x ELSE a[2]>>, <<MV, 2147483647>>, F)
             IN IF m[1] = MV THEN <<0, 0>> ELSE m
Extent(F) == LET m == MaxMin(F) IN m[1] - m[2]
Biggest(F) == LET m == MaxMin(F) IN IF AbsV(m[1]) > AbsV(m[2]) THEN AbsV(m[1]) ELSE AbsV(m[2])
(* range of the field actually encoded *)
Spread(r) == IF ~r.mf \/ ~(\E i \in 1..Len(r.F) : r.F[i] = MV) THEN Extent(r.F)
             ELSE Extent(r.F) + (Extent(r.F) * MissNum(r.dt, r.nb)) \div 100 + Biggest(r.F) \div 100 + 1
(* single precision arithmetic on values of this size *)
Fuzz(r) == 2 + (Biggest(r.F) + Spread(r)) \div 32768
Quant(r, G) ==       \* scaled integers of nb bits over a power of two, rounded down
  \E S \in {Spread(r)} : \E step \in {(64 * P2(S)) \div Pow(r.nb)} : \E z \in {Fuzz(r)} :
     \A i \in 1..Len(r.F) : r.F[i] # MV => LET d == 64 * r.F[i] - G[i] IN d >= -z /\ d <= step + 1 + z
Linear(r, G) ==      \* scaled integers of nb bits over the range itself
  \E S \in {Spread(r)} : \E step \in {(128 * S) \div Pow(r.nb)} : \E z \in {Fuzz(r)} :
     \A i \in 1..Len(r.F) : r.F[i] # MV => AbsV(64 * r.F[i] - G[i]) <= step + 1 + z
Relative(r, G) ==    \* the leading bits of the IEEE representation
  \A i \in 1..Len(r.F) : r.F[i] # MV =>
     AbsV(64 * r.F[i] - G[i]) <= 2 + (64 * AbsV(r.F[i])) \div Pow(r.nb - 9)
Missing(r, G) == r.mf => \A i \in 1..Len(r.F) : (G[i] = MV) <=> (r.F[i] = MV)
Fid(r, G) ==
  /\ Len(G) = Len(r.F)
  /\ CASE Kind(r.dt, r.nb) = "raw" -> G = r.F
       [] Kind(r.dt, r.nb) = "integer" -> G = r.F
       [] Kind(r.dt, r.nb) = "exact" -> Exact(r.F, G) /\ Missing(r, G)
       [] Kind(r.dt, r.nb) = "quant" -> Quant(r, G) /\ Missing(r, G)
       [] Kind(r.dt, r.nb) = "linear" -> Linear(r, G) /\ Missing(r, G)
       [] OTHER -> Relative(r, G) /\ Missing(r, G)

(* --- the domain: values the type can hold --- *)
InDomain(r) ==
  IF IsRaw(r.dt) THEN TRUE
  ELSE IF IsReal(r.dt) THEN Biggest(r.F) <= (IF r.mf THEN 2^14 ELSE 2^20) /\ (Base(r.dt) = 5 => r.nb >= 10)
  ELSE LET mm == MaxMin(r.F)
           top == IF r.nb >= 31 THEN 2147483646 ELSE Pow(r.nb) - 1
           m == IF r.mf THEN 1 ELSE 0 IN
       IF Base(r.dt) = 4 THEN r.nb >= 32 \/ (mm[2] >= -(Pow(r.nb - 1)) /\ mm[1] <= Pow(r.nb - 1) - 1 - m)
       ELSE mm[2] >= 0 /\ mm[1] <= top - m

(* --- transitions --- *)
PInit == recs = <<>> /\ op = <<>>
Write(r, ret, kept) ==
  /\ kept = TRUE /\ ret >= 0
  /\ IF InDomain(r) THEN TRUE ELSE Assert(FALSE, <<"out of domain", r.dt, r.nb, r.es>>)
  /\ recs' = Append(recs, [seen |-> <<>>] @@ r) /\ op' = <<"w", r.dt, r.nb>>
Read(k, es, dims, G, rest) ==
  /\ k \in 1..Len(recs) /\ dims = recs[k].dims /\ rest = TRUE
  /\ Fid(recs[k], G)
  /\ recs[k].seen # <<>> => G = recs[k].seen          \* reading is repeatable
  /\ recs' = IF es = recs[k].es THEN [recs EXCEPT ![k].seen = G] ELSE recs
  /\ op' = <<"r", k>>
Reopen == op' = <<"reopen">> /\ UNCHANGED recs
=============================================================================
