------------------------------ MODULE EnvOptMC ------------------------------
EXTENDS EnvOpt
CONSTANTS Alpha, MaxLen, Depth
VARIABLES opts, hist, last
(* what a user means: a list of options [name, quote, values]; its text; reading the text gives it back *)
Names == {<<97>>, <<66, 98>>}
Words == {<<120>>, <<48, 49>>}
Q == {<<>>, <<40, 41>>, <<91, 93>>, <<123, 125>>, <<34, 34>>, <<39, 39>>}
Opt == {[n |-> n, q |-> q, w |-> w, b |-> b] : n \in Names, q \in Q, w \in UNION {[1..k -> Words] : k \in 1..2}, b \in {<<>>, <<32>>}}
RECURSIVE Join(_, _, _)
Join(ws, sep, k) == IF k > Len(ws) THEN <<>> ELSE (IF k > 1 THEN sep ELSE <<>>) \o ws[k] \o Join(ws, sep, k + 1)
Val(o) == LET j == Join(o.w, <<44>> \o o.b, 1) IN IF o.q = <<>> THEN j ELSE <<o.q[1]>> \o j \o <<o.q[2]>>
Text(o) == o.b \o o.n \o o.b \o <<61>> \o o.b \o Val(o) \o o.b
RECURSIVE TextAll(_, _)
TextAll(os, k) == IF k > Len(os) THEN <<>> ELSE (IF k > 1 THEN <<59>> ELSE <<>>) \o Text(os[k]) \o TextAll(os, k + 1)
RECURSIVE Meaning(_, _)
Meaning(os, k) == IF k > Len(os) THEN <<>> ELSE [i \in 1..Len(os[k].w) |-> <<Upper(os[k].n), i, os[k].w[i]>>] \o Meaning(os, k + 1)
MInit == env = Init0 /\ opts = <<>> /\ hist = <<>> /\ last = <<>>
MNext == \/ Len(opts) < 2 /\ \E o \in Opt : opts' = Append(opts, o) /\ env' = [env EXCEPT ![1] = TextAll(opts', 1)] /\ UNCHANGED <<hist, last>>
         \/ opts # <<>> /\ last' = Apply([op |-> "read", v |-> 1]).r /\ env' = Apply([op |-> "read", v |-> 1]).s /\ UNCHANGED <<opts, hist>>
Delivered == opts # <<>> => Crack(env[1]) = Meaning(opts, 1)
(* any text at all: positions count from one within an option, and a text cut at an option boundary gives a prefix *)
AInit == env \in [1..1 -> UNION {[1..k -> Alpha] : k \in 0..MaxLen}] /\ opts = <<>> /\ hist = <<>> /\ last = <<>>
ANext == FALSE /\ UNCHANGED <<env, opts, hist, last>>
Positions == LET c == Crack(env[1]) IN \A i \in 1..Len(c) : c[i][2] = 1 \/ (i > 1 /\ c[i][2] = c[i - 1][2] + 1 /\ c[i][1] = c[i - 1][1])
Pref(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Prefix == \A k \in 1..Len(env[1]) : env[1][k] = 59 => Pref(Crack(SubSeq(env[1], 1, k)), Crack(env[1]))
(* generator *)
Rnd(S) == TLCEval(RandomElement(S))
GAct == \E v \in {Rnd(1..NV)} : \E o \in {Rnd({"text", "opts", "read", "read", "unset"})} :
   \E a \in { CASE o = "read" -> [op |-> "read", v |-> v]
                [] o = "unset" -> [op |-> "setenv", v |-> v, str |-> Unset]
                [] o = "text" -> [op |-> "setenv", v |-> v, str |-> TLCEval([i \in 1..Rnd(0..14) |-> RandomElement(Alpha)])]
                [] o = "opts" -> [op |-> "setenv", v |-> v, str |-> TLCEval(TextAll([i \in 1..Rnd(1..4) |-> Rnd(Opt)], 1))] } :
     IF a.op = "read" \/ Defined(a.str) THEN env' = Apply(a).s /\ hist' = Append(hist, a) ELSE env' = env /\ hist' = hist
GNext == Len(hist) < Depth /\ GAct /\ UNCHANGED <<opts, last>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
