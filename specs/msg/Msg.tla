-------------------------------- MODULE Msg --------------------------------
(* Message system (src/primitives/msg.F90): levels 0 (quiet), 1 debug, 2 infoplus, 3 info, 4 important, 5 warning, 6 error,
   7 critical, 8 verbatim.  A message is shown when writing is allowed and its level reaches the verbosity, on the unit of its
   level, with the prefix of its level; independently, the messages that reach the buffer's verbosity are kept (the latest 256,
   a message equal to the one before it once) until they are flushed, latest first, or forgotten. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap
VARIABLE st
Levels == 0..8
Units == 1..6       \* 1 standard output, 2 standard error, 3..6 files
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 8 THEN 8 ELSE v
Prefix(v) == CASE v = 1 -> "DEBUG: " [] v = 5 -> "WARNING: " [] v = 6 -> "ERROR: " [] v = 7 -> "CRITICAL ERROR: " [] OTHER -> ""
Line(v, m) == Prefix(v) \o m
Init0 == [min |-> 3, can |-> TRUE, unit |-> [v \in Levels |-> IF v \in {1, 6, 7} THEN 2 ELSE 1], bmin |-> 6, buf |-> <<>>]
Shown(s, v) == s.can /\ v >= s.min
Last(q) == q[Len(q)]
Keep(s, v, m) == IF v < s.bmin \/ (s.buf # <<>> /\ Last(s.buf) = <<Clamp(v), m>>) THEN s.buf
                 ELSE LET q == Append(s.buf, <<Clamp(v), m>>) IN IF Len(q) > Cap THEN Tail(q) ELSE q
Nothing == [u \in Units |-> <<>>]
Emitted(s, v, m) == IF Shown(s, v) THEN [Nothing EXCEPT ![s.unit[Clamp(v)]] = <<Line(Clamp(v), m)>>] ELSE Nothing
Begin == " ==== Msg Buffer traceback [BEGIN] =============================="
End == " ==== Msg Buffer traceback [END] ================================"
(* the lines of one unit, latest message first *)
RECURSIVE Back(_, _, _)
Back(s, u, k) == IF k = 0 THEN <<>> ELSE (IF s.unit[s.buf[k][1]] = u THEN <<Line(s.buf[k][1], s.buf[k][2])>> ELSE <<>>) \o Back(s, u, k - 1)
Framed(s) == {s.unit[v] : v \in s.bmin..8}
Flushed(s) == [u \in Units |-> (IF u \in Framed(s) THEN <<Begin>> ELSE <<>>) \o Back(s, u, Len(s.buf)) \o (IF u \in Framed(s) THEN <<End>> ELSE <<>>)]
(* what a redirection names: standard error (0) the levels 6 to 8, standard output (6) the levels 1 to 5, else one level *)
Redirected(w) == IF w = 0 THEN 6..8 ELSE IF w = 6 THEN 1..5 ELSE {w}
ApplyMsg(s, a) ==
  CASE a.op = "msg"     -> [s |-> [s EXCEPT !.buf = Keep(s, a.v, a.m)], out |-> Emitted(s, a.v, a.m), r |-> 0]
    [] a.op = "toall"   -> [s |-> [s EXCEPT !.buf = Keep(s, a.v, a.m)], out |-> Emitted([s EXCEPT !.can = TRUE], a.v, a.m), r |-> 0]
    [] a.op = "verb"    -> [s |-> [s EXCEPT !.min = Clamp(a.v)], out |-> Nothing, r |-> 0]
    [] a.op = "getverb" -> [s |-> s, out |-> Nothing, r |-> s.min]
    [] a.op = "p0"      -> [s |-> [s EXCEPT !.can = (a.v = 0)], out |-> Nothing, r |-> 0]
    [] a.op = "can"     -> [s |-> [s EXCEPT !.can = (a.v # 0)], out |-> Nothing, r |-> 0]
    [] a.op = "redirect" -> [s |-> [s EXCEPT !.unit = [v \in Levels |-> IF v \in Redirected(a.v) THEN a.u ELSE s.unit[v]]], out |-> Nothing, r |-> 0]
    [] a.op = "bverb"   -> [s |-> [s EXCEPT !.bmin = Clamp(a.v)], out |-> Nothing, r |-> 0]
    [] a.op = "getbverb" -> [s |-> s, out |-> Nothing, r |-> s.bmin]
    [] a.op = "breset"  -> [s |-> [s EXCEPT !.buf = <<>>], out |-> Nothing, r |-> 0]
    [] a.op = "flush"   -> [s |-> [s EXCEPT !.buf = <<>>], out |-> Flushed(s), r |-> 0]
    [] a.op = "unit"    -> [s |-> s, out |-> Nothing, r |-> IF Shown(s, a.v) THEN s.unit[Clamp(a.v)] ELSE -1]
    [] a.op = "info"    -> [s |-> s, out |-> Nothing, r |-> <<IF s.can THEN 1 ELSE 0, s.min, s.unit[s.min]>>]
Step(a) == LET x == ApplyMsg(st, a) IN (\A u \in Units : a.out[u] = x.out[u]) /\ a.r = x.r /\ st' = x.s
TypeOK == Len(st.buf) <= Cap /\ st.min \in Levels /\ st.bmin \in Levels /\ \A v \in Levels : st.unit[v] \in Units
=============================================================================
