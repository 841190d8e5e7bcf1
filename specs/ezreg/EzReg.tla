------------------------------- MODULE EzReg -------------------------------
(* The grid registry and the state of the interpolator (ezscint).
   A grid is its definition (type, size, descriptors, axes). An identity lives from the first definition to the last release.
   Options hold the last value set. A query depends on the definitions, the options, the mask and the field only: the
   driver answers every query a second time in a process that never saw the history, and both answers are compared. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == 0 - 1
(* live: identity -> [d: definition, n: number of definitions not yet released, mask: <<>> or the mask] *)
Ids(live, d) == {i \in DOMAIN live : live[i].d = d}
Known(live, d) == Ids(live, d) # {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* identity a definition may be given *)
MayDefine(live, d, id) == id >= 0 /\ IF Known(live, d) THEN id \in Ids(live, d) ELSE id \notin DOMAIN live
Defined(live, d, id) == IF id \in DOMAIN live THEN [live EXCEPT ![id].n = @ + 1] ELSE Put(live, id, [d |-> d, n |-> 1, mask |-> <<>>])
Released(live, id) == IF live[id].n = 1 THEN Drop(live, id) ELSE [live EXCEPT ![id].n = @ - 1]
(* the current pair of grids *)
NoPair == [o |-> None, i |-> None]
PairAfterRelease(cur, live2) == IF cur.o \in DOMAIN live2 /\ cur.i \in DOMAIN live2 THEN cur ELSE NoPair
(* ---- options ---- *)
Opt0 == [interp_degree |-> "cubic", extrap_degree |-> "maximum", polar_correction |-> "yes", use_1subgrid |-> "no", verbose |-> "no", cloud_interp_alg |-> "distance",
         extrap_value |-> 0, missing_distance_threshold |-> 3000, weight_number |-> 16, missing_points_tolerance |-> 0, subgridid |-> None]
Canon(n) == CASE n = "correction_polaire" -> "polar_correction" [] n = "degre_interp" -> "interp_degree" [] n = "degre_extrap" -> "extrap_degree" [] n = "use_1sousgrille" -> "use_1subgrid" [] OTHER -> n
CanonV(v) == CASE v = "oui" -> "yes" [] v = "non" -> "no" [] v = "voisin" -> "nearest" [] v = "lineair" -> "linear" [] v = "lineaire" -> "linear" [] v = "cubique" -> "cubic" [] v = "neutre" -> "neutral" [] v = "valeur" -> "value" [] OTHER -> v
Values(n) == CASE n = "interp_degree" -> {"nearest", "linear", "cubic", "average", "sph_average"}
               [] n = "extrap_degree" -> {"neutral", "nearest", "linear", "cubic", "maximum", "minimum", "value", "abort"}
               [] n = "polar_correction" -> {"yes", "no"} [] n = "use_1subgrid" -> {"yes", "no"} [] n = "cloud_interp_alg" -> {"linear", "distance"} [] n = "verbose" -> {"no"} [] OTHER -> {}
SetOk(n, v) == CanonV(v) \in Values(Canon(n))
SetOpt(o, n, v) == IF ~SetOk(n, v) THEN o ELSE [o EXCEPT ![Canon(n)] = IF CanonV(v) = "neutral" THEN o.interp_degree ELSE CanonV(v)]
French(v) == CASE v = "nearest" -> "voisin" [] v = "linear" -> "lineaire" [] v = "cubic" -> "cubique" [] v = "value" -> "valeur" [] OTHER -> v
GetOpt(o, n) == IF n \in {"degre_interp", "degre_extrap"} THEN French(o[Canon(n)]) ELSE o[n]
RealNames == {"extrap_value", "missing_distance_threshold"}
IntNames == {"weight_number", "missing_points_tolerance", "subgridid"}
=============================================================================
