------------------------------- MODULE EnvOpt -------------------------------
(* c_env_var_cracker: option variables of the form  NAME1=value;NAME2=v1,v2;NAME3='quoted value'
   State: the environment (variables 1..NV, each a string or unset). Reading a variable delivers calls
   <<name, position, value>> to the consumer and leaves the environment as it is. Strings are sequences of bytes. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Json, TLC
CONSTANTS NV
VARIABLE env
Unset == <<-1>>
Init0 == [v \in 1..NV |-> Unset]
Space == {32, 9, 10, 11, 12, 13}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s = <<>> THEN s ELSE IF s[1] \in Space THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimLR(s) == TrimR(TrimL(s))
(* pieces between separators, empty ones skipped *)
Split(s, seps) == LET e == FoldLeft(LAMBDA q, c : IF c \in seps THEN (IF q[2] = <<>> THEN q ELSE <<Append(q[1], q[2]), <<>>>>) ELSE <<q[1], Append(q[2], c)>>, <<<<>>, <<>>>>, s)
                  IN IF e[2] = <<>> THEN e[1] ELSE Append(e[1], e[2])
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
Pairs == { <<91, 93>>, <<40, 41>>, <<123, 125>>, <<34, 34>>, <<39, 39>> }     \* [] () {} "" ''
(* "quoted" / "plain" / "bad" for a non-empty trimmed value *)
Form(s) == LET a == s[1] z == s[Len(s)] IN
           IF Len(s) > 1 /\ <<a, z>> \in Pairs THEN "quoted"
           ELSE IF \E p \in Pairs : a = p[1] \/ z = p[2] \/ (Len(s) = 1 /\ a \in {p[1], p[2]}) THEN "bad" ELSE "plain"
Comma == 44
HasComma(s) == \E i \in 1..Len(s) : s[i] = Comma
Number(name, ps) == [i \in 1..Len(ps) |-> <<name, i, TrimLR(ps[i])>>]
(* one option: [ok, calls] *)
Option(s) == LET f == Split(s, {61}) IN
   IF f = <<>> THEN [ok |-> TRUE, c |-> <<>>]
   ELSE LET name == TrimLR(Upper(f[1])) IN
        IF Len(f) < 2 THEN [ok |-> TRUE, c |-> <<>>]
        ELSE LET v == TrimLR(f[2]) IN
             IF v = <<>> THEN [ok |-> TRUE, c |-> <<>>]
             ELSE IF Form(v) = "bad" THEN [ok |-> FALSE, c |-> <<>>]
             ELSE LET u == IF Form(v) = "quoted" THEN SubSeq(v, 2, Len(v) - 1) ELSE v IN
                  IF Form(v) = "quoted" /\ ~HasComma(u) THEN [ok |-> TRUE, c |-> << <<name, 1, u>> >>]
                  ELSE [ok |-> TRUE, c |-> Number(name, Split(u, {Comma, 32}))]
(* the options in order, up to the first malformed one *)
Walk(os) == FoldLeft(LAMBDA q, p : IF ~q.ok THEN q ELSE LET o == Option(p) IN [ok |-> o.ok, c |-> q.c \o o.c], [ok |-> TRUE, c |-> <<>>], os).c
Crack(s) == IF s = Unset THEN <<>> ELSE Walk(Split(s, {59}))
(* inputs the format defines: at most one = per option *)
RECURSIVE Count(_, _, _)
Count(s, b, k) == IF k > Len(s) THEN 0 ELSE (IF s[k] = b THEN 1 ELSE 0) + Count(s, b, k + 1)
Defined(s) == s = Unset \/ \A i \in 1..Len(Split(s, {59})) : Count(Split(s, {59})[i], 61, 1) <= 1
Apply(a) == CASE a.op = "setenv" -> [s |-> [env EXCEPT ![a.v] = a.str], r |-> <<>>]
              [] a.op = "read"   -> [s |-> env, r |-> Crack(env[a.v])]
=============================================================================
