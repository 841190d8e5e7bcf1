------------------------------- MODULE VertMC -------------------------------
(* the finder's bisection against the bracketing requirement, and the laws of the interpolators, exhaustively for small columns *)
EXTENDS Vert, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS MaxN, R, Depth
VARIABLES cfg, r, u, hist
(* ---- bisection in units of 1/K of a level index, as the code does it; column heights 2..MaxN with levels 2, 4, .. and all targets *)
K == 4096
Idx(q) == q \div K
Col(n, up) == [k \in 1..n |-> IF up THEN 2 * k ELSE 2 * (n + 1 - k)]
Starts == UNION {{[n |-> n, up |-> up, t |-> t] : up \in BOOLEAN, t \in 0..(2*n+3)} : n \in 2..MaxN}
BInit == cfg \in Starts /\ r = (cfg.n + 1) * (K \div 2) /\ u = (cfg.n - 1) * (K \div 2) /\ hist = <<>> /\ st = None
BNext == /\ u * 100 > 95 * K
         /\ u' = u \div 2
         /\ LET x == Col(cfg.n, cfg.up) i == Idx(r) d == IF cfg.up THEN 1 ELSE -1
                a == IF cfg.t >= x[i] THEN d * u' ELSE 0
                b == IF cfg.t <= x[i+1] THEN -(d * u') ELSE 0
            IN r' = r + a + b
         /\ UNCHANGED <<cfg, hist, st>>
InRange == Idx(r) \in 1..cfg.n-1
Finds == u * 100 > 95 * K \/ Idx(r) \in Bracket(Col(cfg.n, cfg.up), cfg.t)
(* ---- laws over every strictly monotonic column drawn from 0..R *)
Cols == UNION {{SetToSortSeq(S, LAMBDA a, b : a < b), SetToSortSeq(S, LAMBDA a, b : a > b)} : S \in {T \in SUBSET (0..R) : Cardinality(T) >= 2}}
LInit == cfg \in [x : Cols, t : (-2)..(R+2)] /\ r = 0 /\ u = 0 /\ hist = <<>> /\ st = None
LNext == FALSE /\ UNCHANGED <<cfg, r, u, hist, st>>
LawBracket == LET B == Bracket(cfg.x, cfg.t) IN B # {} /\ Cardinality(B) <= 2
              /\ (Cardinality(B) = 2 => \E k \in 2..Len(cfg.x)-1 : cfg.x[k] = cfg.t)
Dist(k) == Abs(cfg.t - cfg.x[k])
LawNearest == \A i \in Bracket(cfg.x, cfg.t) : Min(Dist(i), Dist(i+1)) = Dist(CHOOSE k \in 1..Len(cfg.x) : \A j \in 1..Len(cfg.x) : Dist(k) <= Dist(j))
LawExclusive == ~(Below(cfg.x, cfg.t) /\ Above(cfg.x, cfg.t)) /\ ((Below(cfg.x, cfg.t) \/ Above(cfg.x, cfg.t)) <=> ~Inside(cfg.x, cfg.t))
LawWindow == Len(cfg.x) >= 4 => \A i \in Bracket(cfg.x, cfg.t) : {i, i+1} \subseteq Window(Len(cfg.x), i) /\ Window(Len(cfg.x), i) \subseteq 1..Len(cfg.x)
(* at a source level every interpolator gives that level's value, whichever pair the finder chose *)
LawAtLevel == \A k \in 1..Len(cfg.x) : cfg.x[k] = cfg.t =>
   LET s == [lev |-> <<cfg.x>>, poly |-> <<<<3, -2, 1, 1>>>>, bump |-> <<<<2, 7>>>>]
   IN \A i \in Bracket(cfg.x, cfg.t) : /\ NearestOk(s, 1, cfg.t, i, U * Val(s, 1, k)) /\ LinearOk(s, 1, cfg.t, i, U * Val(s, 1, k))
                                       /\ HermiteOk(s, 1, cfg.t, i, U * Val(s, 1, k), U * Der(s, 1, k))
                                       /\ (Len(cfg.x) >= 4 => LagrangeOk(s, 1, cfg.t, i, U * Val(s, 1, k)))
(* ---- random behaviours for replay *)
Rnd(S) == TLCEval(RandomElement(S))
RSet(n) == TLCEval(RandomSubset(n, (-10)..10))
GSetup(n, nc, nt, up) == [op |-> "setup", init |-> Rnd(100..120),
   lev |-> [c \in 1..nc |-> IF up THEN SetToSortSeq(RSet(n), LAMBDA a, b : a < b) ELSE SetToSortSeq(RSet(n), LAMBDA a, b : a > b)],
   tgt |-> [c \in 1..nc |-> [t \in 1..nt |-> Rnd((-14)..14)]],
   poly |-> [c \in 1..nc |-> <<Rnd((-20)..20), Rnd((-5)..5), Rnd((-3)..3), Rnd((-1)..1)>>],
   bump |-> [c \in 1..nc |-> <<Rnd(1..n), Rnd((-50)..50)>>]]
GAct(o) == [op |-> o, dn |-> Rnd(BOOLEAN), up |-> Rnd(BOOLEAN), gd |-> Rnd((-9)..9), gu |-> Rnd((-9)..9)]
GInit == cfg = 0 /\ r = 0 /\ u = 0 /\ hist = <<>> /\ st = None
GNext == /\ \E o \in {Rnd({"nearest", "linear", "lagrange", "hermite", "fixed", "lapse"})},
              n \in {Rnd(2..9)}, nc \in {Rnd(1..4)}, nt \in {Rnd(1..5)}, up \in {Rnd(BOOLEAN)} :
              hist' = IF (Len(hist) % 8) = 0 THEN Append(hist, GSetup(n, nc, nt, up))
                      ELSE IF (Len(hist) % 8) = 1 THEN Append(hist, [op |-> "find"]) ELSE Append(hist, GAct(o))
         /\ UNCHANGED <<cfg, r, u, st>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
