------------------------------ MODULE EzRegMC ------------------------------
EXTENDS EzReg
CONSTANTS MaxId, MaxN, MaxOps
VARIABLES live, cur, opts, n
Defs == {"a", "b", "c"}
MInit == live = << >> /\ cur = NoPair /\ opts = Opt0 /\ n = 0
MNext == n < MaxOps /\ n' = n + 1 /\
   \/ \E d \in Defs, id \in 0..MaxId : MayDefine(live, d, id) /\ (id \in DOMAIN live => live[id].n < MaxN) /\ live' = Defined(live, d, id) /\ UNCHANGED <<cur, opts>>
   \/ \E id \in DOMAIN live : live' = Released(live, id) /\ cur' = PairAfterRelease(cur, live') /\ UNCHANGED opts
   \/ \E a, b \in DOMAIN live : cur' = [o |-> a, i |-> b] /\ UNCHANGED <<live, opts>>
   \/ \E nm \in {"interp_degree", "degre_extrap", "correction_polaire", "nonsense"}, v \in {"cubic", "voisin", "neutre", "oui", "no", "value"} : opts' = SetOpt(opts, nm, v) /\ UNCHANGED <<live, cur>>
OneIdentity == \A i, j \in DOMAIN live : live[i].d = live[j].d => i = j
Counted == \A i \in DOMAIN live : live[i].n >= 1
PairLives == cur = NoPair \/ {cur.o, cur.i} \subseteq DOMAIN live
OptsLegal == \A k \in {"interp_degree", "extrap_degree", "polar_correction", "use_1subgrid"} : opts[k] \in Values(k) \ {"neutral"}
ReadBack == \A k \in {"degre_interp", "degre_extrap"} : SetOpt(opts, k, GetOpt(opts, k)) = opts
=============================================================================
