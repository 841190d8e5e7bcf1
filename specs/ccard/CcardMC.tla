------------------------------ MODULE CcardMC ------------------------------
EXTENDS Ccard
CONSTANTS MaxArgs, Depth
VARIABLES T, args, st, hist
(* tables: a single key, a list of three, a lower-case one, with and without positional slots (first, middle or last) *)
A == <<97>>  B == <<98, 46>>  L == <<108, 95>>  P == <<45>>  W == <<119, 58>>
KeySets == { <<A>>, <<B, B, B>>, <<A, B, B, L>>, <<P, P, A>>, <<A, P, P>>, <<L, P, B, B>>, <<W, A, W, W>>, <<B, B, P, W, W>> }
D(n) == <<100, 48 + n>>  V(n) == <<86, 48 + n>>
Mk(kind, ks) == Table(kind, ks, [i \in 1..Len(ks) |-> D(i)], [i \in 1..Len(ks) |-> V(i)])
ArgSet == { <<45, 97>>, <<45, 66>>, <<45, 108>>, <<45, 119>>, <<45, 122>>, <<45, 98, 61, 120, 58, 121>>, <<45, 97, 61, 45, 51>>, <<45, 45>>, <<45, 108, 61>>,
            <<>>, <<120>>, <<50, 58, 51, 58, 45, 52>>, <<61, 45, 50, 50>>, <<61, 45, 50, 58, 51>>, <<121, 58>>, <<117, 58, 58, 118>>, <<97, 58, 98, 61, 99>>, <<45>> }
MInit == \E k \in {"c", "f"}, ks \in KeySets : T = Mk(k, ks) /\ args = <<>> /\ st = Start(Mk(k, ks)) /\ hist = <<>>
MNext == Len(args) < MaxArgs /\ \E a \in ArgSet : args' = Append(args, a) /\ st' = Step(T, st, a) /\ UNCHANGED <<T, hist>>
MSpec == MInit /\ [][MNext]_<<T, args, st, hist>>
NamedIn(n) == \E i \in 1..Len(args) : Len(args[i]) > 1 /\ args[i][1] = Dash /\ args[i][2] # Dash /\ Upper(SubSeq(args[i], 2, At(args[i], {Equal, Colon}) - 1)) = n
(* a key never named keeps its default *)
Untouched == \A k \in 1..Len(T.n) : T.n[k] # <<Dash>> /\ ~NamedIn(T.n[k]) => st.v[k] = T.val[k]
(* positional keys change only when positional arguments are given *)
PosOnly == st.np = 0 /\ st.mode # "end" => \A k \in 1..Len(T.n) : T.n[k] = <<Dash>> => st.v[k] = T.val[k]
(* positional values keep their order and every one of them is counted *)
RECURSIVE AsGiven(_, _, _)
AsGiven(k, i, started) == IF i > Len(args) THEN <<>> ELSE IF k = "end" THEN <<args[i]>> \o AsGiven(k, i + 1, TRUE)
     ELSE IF args[i] # <<>> /\ args[i][1] = Dash THEN AsGiven(IF Len(args[i]) > 1 /\ args[i][2] = Dash THEN "end" ELSE "keys", i + 1, TRUE)
     ELSE IF k = "pos" THEN <<args[i]>> \o AsGiven(k, i + 1, TRUE) ELSE AsGiven(k, i + 1, TRUE)
PosOrder == Posk(T) > 0 => LET g == AsGiven("pos", 1, FALSE) IN
     /\ st.np = Len(g)
     /\ \A j \in 1..Len(g) : LET k == Posk(T) + j - 1 IN k <= Len(T.n) /\ T.n[k] = <<Dash>> => st.v[k] = Given(T, k, g[j])
(* errors are exactly excess or stray values and unknown keys: a line of known keys with one value each has none *)
Clean == (\A i \in 1..Len(args) : args[i] \in {<<45, 97>>, <<45, 108>>} /\ NamedIn(Upper(SubSeq(args[i], 2, 2))) /\ FirstK(T.n, Upper(SubSeq(args[i], 2, 2))) > 0) => st.err = 0
Slots == st.posc <= Len(T.n) + 1 /\ (st.pos > 0 => st.posc >= st.pos)
Monotone == [][st'.err >= st.err /\ st'.np >= st.np]_<<T, args, st, hist>>
(* generator: histories of complete calls *)
Rnd(S) == TLCEval(RandomElement(S))
GInit == T = 0 /\ args = 0 /\ st = 0 /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E kind \in {Rnd({"c", "f"})}, ks \in {Rnd(KeySets)}, n \in {Rnd(0..6)}, np \in {Rnd({0, 1, 1, -111})} :
            hist' = Append(hist, [kind |-> kind, keys |-> ks, def |-> [i \in 1..Len(ks) |-> D(i)], val |-> [i \in 1..Len(ks) |-> V(i)],
                                  args |-> TLCEval([i \in 1..n |-> RandomElement(ArgSet)]), npos |-> np])
         /\ UNCHANGED <<T, args, st>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
