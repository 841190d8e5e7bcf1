------------------------------- MODULE Ccard -------------------------------
(* c_ccard (C) and ccard (Fortran): a key table and a command line give every key its value.
   Table: keys[k] (name as written, suffix included), def[k], val[k]; same names in a row form a list.
   Parsing is a walk over the arguments; the state is
     v    final values            np   positional arguments seen      err  errors reported
     pos  key named last (0: none or unknown)     posc  where its next value goes
     mp   where the next positional argument goes  mode  "pos" before any key, "keys", "end" after --
   Strings are sequences of bytes. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Dash == 45  Colon == 58  Equal == 61

IsC(kind) == kind = "c"
(* type of a key by its last character: . as given, _ lower case, else upper case; : (Fortran) as given and not split at : *)
Ty(kind, n) == CASE Last(n) = 46 -> "same" [] Last(n) = 95 -> "lower" [] Last(n) = Colon /\ ~IsC(kind) -> "whole" [] OTHER -> "upper"
Name(kind, n) == Upper(IF Last(n) \in {46, 95} \/ (Last(n) = Colon /\ ~IsC(kind)) THEN SubSeq(n, 1, Len(n) - 1) ELSE n)
Trans(t, s) == CASE t = "upper" -> Upper(s) [] t = "lower" -> Lower(s) [] OTHER -> s
FirstK(ns, x) == IF \E k \in 1..Len(ns) : ns[k] = x THEN CHOOSE k \in 1..Len(ns) : ns[k] = x /\ \A j \in 1..(k - 1) : ns[j] # x ELSE 0
Table(kind, keys, def, val) == [kind |-> kind, n |-> [k \in 1..Len(keys) |-> Name(kind, keys[k])], t |-> [k \in 1..Len(keys) |-> Ty(kind, keys[k])], d |-> def, val |-> val]
Posk(T) == FirstK(T.n, <<Dash>>)
Start(T) == [v |-> T.val, np |-> 0, err |-> 0, pos |-> 0, posc |-> 0, mp |-> Posk(T), mode |-> IF IsC(T.kind) /\ Posk(T) = 0 THEN "keys" ELSE "pos", dt |-> 1, av |-> <<>>]
Room(T, first, slot) == first > 0 /\ slot <= Len(T.n) /\ T.n[first] = T.n[slot]
(* what was given on the command line, by key and rank in its list *)
Note(av, n, r, x) == Append(SelectSeq(av, LAMBDA q : ~(q[1] = n /\ q[2] = r)), <<n, r, x>>)
Cap(kind) == IF IsC(kind) THEN 255 ELSE 64          \* room for a value in the caller's table
Clip(T, x) == SubSeq(x, 1, IF Len(x) > Cap(T.kind) THEN Cap(T.kind) ELSE Len(x))
Given(T, slot, x) == IF IsC(T.kind) THEN x ELSE Trans(T.t[slot], x)
Positional(T, s, x) == IF Room(T, Posk(T), s.mp)
     THEN [s EXCEPT !.v[s.mp] = Clip(T, Given(T, s.mp, x)), !.mp = @ + 1, !.np = @ + 1, !.av = Note(@, T.n[s.mp], s.mp - Posk(T), Given(T, s.mp, x))]
     ELSE [s EXCEPT !.mp = @ + 1, !.np = @ + 1, !.err = @ + 1]
OneValue(T, s, x) == IF Room(T, s.pos, s.posc)
     THEN [s EXCEPT !.v[s.posc] = Clip(T, Given(T, s.posc, x)), !.posc = @ + 1, !.av = Note(@, T.n[s.posc], s.posc - s.pos, Given(T, s.posc, x))]
     ELSE [s EXCEPT !.err = @ + 1]
Named(T, s, x, set) == LET k == FirstK(T.n, Upper(x)) IN
     IF k = 0 THEN [s EXCEPT !.err = @ + 1, !.pos = 0, !.posc = 0, !.mode = "keys"]
     ELSE LET dv == Given(T, k, T.d[k]) IN
          [s EXCEPT !.pos = k, !.posc = k, !.dt = k, !.mode = "keys", !.v[k] = IF set THEN Clip(T, dv) ELSE @, !.av = IF IsC(T.kind) THEN @ ELSE Note(@, T.n[k], 0, dv)]
(* -------- pieces of an argument *)
Cut(s, seps) == LET e == FoldLeft(LAMBDA q, c : IF c \in seps THEN <<Append(q[1], q[2]), <<>>>> ELSE <<q[1], Append(q[2], c)>>, <<<<>>, <<>>>>, s) IN Append(e[1], e[2])
At(s, seps) == LET H == {i \in 1..Len(s) : s[i] \in seps} IN IF H = {} THEN Len(s) + 1 ELSE CHOOSE i \in H : \A j \in H : i <= j
UnEq(p) == IF p # <<>> /\ p[1] = Equal THEN Tail(p) ELSE p
CValues(T, s, x) == LET ps == Cut(x, {Colon}) IN
     FoldLeft(LAMBDA q, p : IF q.over THEN q ELSE LET z == OneValue(T, q.s, UnEq(p)) IN [s |-> z, over |-> z.err > q.s.err], [s |-> s, over |-> FALSE], ps).s
(* one separator at the start is skipped; an empty piece at the very end is not a value, except for an empty argument *)
FValues(T, s, x, fresh) == LET seps == IF T.t[s.dt] = "whole" THEN {Equal} ELSE {Colon, Equal}
                        y == IF x # <<>> /\ x[1] \in seps THEN Tail(x) ELSE x
                        ps == Cut(y, seps)
                        qs == IF Last(ps) = <<>> /\ (Len(ps) > 1 \/ ~fresh) THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
     IN FoldLeft(LAMBDA q, p : OneValue(T, q, p), s, qs)
CStep(T, s, a) ==
     CASE s.mode = "end" -> IF Posk(T) = 0 THEN [s EXCEPT !.err = @ + 1] ELSE Positional(T, s, a)
       [] s.mode = "pos" /\ (a = <<>> \/ a[1] # Dash) -> Positional(T, s, a)
       [] a # <<>> /\ a[1] = Dash -> IF Len(a) > 1 /\ a[2] = Dash THEN [s EXCEPT !.mode = "end"]
             ELSE LET e == At(a, {Equal}) n == SubSeq(a, 2, e - 1) IN
                  IF e > Len(a) THEN Named(T, s, n, TRUE)
                  ELSE LET z == Named(T, s, n, FALSE) IN IF z.pos = 0 THEN z ELSE CValues(T, z, SubSeq(a, e + 1, Len(a)))
       [] OTHER -> CValues(T, s, a)
FStep(T, s, a) ==
     CASE s.mode = "end" -> Positional(T, s, a)
       [] s.mode = "pos" /\ (a = <<>> \/ a[1] # Dash) -> Positional(T, s, a)
       [] a # <<>> /\ a[1] = Dash -> IF a = <<Dash, Dash>> THEN [s EXCEPT !.mode = "end"]
             ELSE LET e == At(a, IF T.t[s.dt] = "whole" THEN {Equal} ELSE {Colon, Equal})
                      z == Named(T, s, SubSeq(a, 2, e - 1), TRUE) IN IF e > Len(a) THEN z ELSE FValues(T, z, SubSeq(a, e, Len(a)), FALSE)
       [] OTHER -> FValues(T, s, a, TRUE)
Step(T, s, a) == IF IsC(T.kind) THEN CStep(T, s, a) ELSE FStep(T, s, a)
Run(T, args) == FoldLeft(LAMBDA s, a : Step(T, s, a), Start(T), args)
FinalV(T, s) == [k \in 1..Len(s.v) |-> IF IsC(T.kind) THEN Trans(T.t[k], s.v[k]) ELSE s.v[k]]
HelpArgs == {<<Dash, 104>>, <<Dash, 72>>}
Rank(T, k) == LET f == FirstK(T.n, T.n[k]) IN k - f
Look(av, n, r) == LET q == SelectSeq(av, LAMBDA z : z[1] = n /\ z[2] = r) IN IF q = <<>> THEN <<-1>> ELSE IF q[1][3] = <<>> THEN <<-1>> ELSE q[1][3]     \* an empty value reads as none
(* the outcome of a whole call *)
Outcome(e) == LET T == Table(e.kind, e.keys, e.def, e.val) s == Run(T, e.args) stop == e.npos \in (IF IsC(e.kind) THEN {-111} ELSE {-111, 111}) IN
     IF Len(e.args) = 1 /\ e.args[1] \in HelpArgs THEN [exit |-> 0, rep |-> TRUE, v |-> <<>>, np |-> 0, av |-> <<>>]
     ELSE IF s.err > 0 /\ stop THEN [exit |-> 1, rep |-> TRUE, v |-> <<>>, np |-> 0, av |-> <<>>]
     ELSE [exit |-> -1, rep |-> s.err > 0, v |-> FinalV(T, s), np |-> IF e.npos > 0 THEN s.np ELSE e.npos,
           av |-> IF IsC(e.kind) THEN <<>> ELSE [k \in 1..Len(T.n) |-> Look(s.av, T.n[k], Rank(T, k))]]
=============================================================================
