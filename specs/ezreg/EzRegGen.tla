------------------------------ MODULE EzRegGen ------------------------------
(* behaviours: definitions / releases / sets / options / queries over 6 definitions; identities are chosen by the code *)
EXTENDS EzReg, Json
CONSTANT GDepth
VARIABLES own, live, cur, opts, hist       \* own: sequence of slots in use (each one definition not yet released) -> definition
Rnd(S) == TLCEval(RandomElement(S))
Slots == 1..8
GInit == own = << >> /\ live = << >> /\ cur = NoPair /\ opts = Opt0 /\ hist = << >>
Do(a) == hist' = Append(hist, a)
Names == {"interp_degree", "degre_interp", "extrap_degree", "degre_extrap", "polar_correction", "correction_polaire", "cloud_interp_alg", "use_1sousgrille", "use_1subgrid", "nonsense"}
Vals == {"nearest", "linear", "cubic", "voisin", "lineaire", "cubique", "average", "sph_average", "neutral", "neutre", "maximum", "minimum", "value", "valeur", "abort", "yes", "no", "oui", "non", "distance", "what"}
GNext == Len(hist) < GDepth /\ \E m \in {Rnd(1..20)} :
   CASE m <= 4 \/ DOMAIN own = {} -> \E s \in {Rnd(Slots)}, d \in {Rnd(0..5)} : IF s \in DOMAIN own THEN Do([op |-> "prm", s |-> s]) /\ UNCHANGED <<own, live, cur, opts>>
                       ELSE own' = Put(own, s, d) /\ live' = Defined(live, d, d) /\ Do([op |-> "def", s |-> s, k |-> d]) /\ UNCHANGED <<cur, opts>>
     [] m = 5 -> \E s \in {Rnd(DOMAIN own)} : own' = Drop(own, s) /\ live' = Released(live, own[s]) /\ cur' = PairAfterRelease(cur, live') /\ Do([op |-> "rls", s |-> s]) /\ UNCHANGED opts
     [] m \in 6..8 -> \E a, b \in {Rnd(DOMAIN own)}, c \in {Rnd(DOMAIN own)} : cur' = [o |-> own[a], i |-> own[c]] /\ Do([op |-> "set", so |-> a, si |-> c]) /\ UNCHANGED <<own, live, opts>>
     [] m = 9 -> \E nm \in {Rnd(Names)}, v \in {Rnd(Vals)} : opts' = SetOpt(opts, nm, v) /\ Do([op |-> "opt", name |-> nm, value |-> v]) /\ UNCHANGED <<own, live, cur>>
     [] m = 10 -> \E nm \in {Rnd({"interp_degree", "extrap_degree", "polar_correction", "use_1subgrid"})} : \E v \in {Rnd(Values(nm))} : opts' = SetOpt(opts, nm, v) /\ Do([op |-> "opt", name |-> nm, value |-> v]) /\ UNCHANGED <<own, live, cur>>
     [] m = 11 -> \E nm \in {Rnd({"interp_degree", "extrap_degree", "degre_interp", "degre_extrap", "polar_correction", "use_1subgrid", "cloud_interp_alg"})} : Do([op |-> "gopt", name |-> nm]) /\ UNCHANGED <<own, live, cur, opts>>
     [] m = 12 -> \E nm \in {Rnd(RealNames)}, v \in {Rnd(0..50)} : Do([op |-> "val", name |-> nm, value |-> 250 * v]) /\ opts' = [opts EXCEPT ![nm] = 250 * v] /\ UNCHANGED <<own, live, cur>>
     [] m = 13 -> \E nm \in {Rnd(RealNames)} : Do([op |-> "gval", name |-> nm]) /\ UNCHANGED <<own, live, cur, opts>>
     [] m = 14 -> \E s \in {Rnd(DOMAIN own)}, w \in {Rnd({"ll", "xyfll", "llfxy", "xys", "lls", "xyv", "llv", "wdfuv", "uvfwd", "prm", "smask", "gmask"})} : Do([op |-> w, s |-> s]) /\ UNCHANGED <<own, live, cur, opts>>
     [] OTHER -> IF cur = NoPair THEN \E s \in {Rnd(DOMAIN own)} : Do([op |-> "ll", s |-> s]) /\ UNCHANGED <<own, live, cur, opts>>
                 ELSE \E w \in {Rnd({"sint", "sint", "sint", "uv", "wd", "imask", "mdm", "uvmdm"})} : Do([op |-> w]) /\ UNCHANGED <<own, live, cur, opts>>
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
