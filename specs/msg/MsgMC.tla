------------------------------- MODULE MsgMC -------------------------------
EXTENDS Msg
CONSTANTS Texts, Vs, Us, MaxSteps, Depth
VARIABLES last, hist, ghost, n
(* ghost: every message issued since the last flush or reset that reached the buffer's verbosity, nothing collapsed or dropped *)
Ops == {[op |-> o, v |-> v, m |-> m] : o \in {"msg", "toall"}, v \in Vs, m \in Texts}
  \cup {[op |-> o, v |-> v] : o \in {"verb", "bverb", "unit"}, v \in Vs}
  \cup {[op |-> o, v |-> v] : o \in {"p0", "can"}, v \in {0, 1}}
  \cup {[op |-> "redirect", v |-> v, u |-> u] : v \in {0, 6} \cup (Vs \cap (1..8)), u \in Us}
  \cup {[op |-> o] : o \in {"getverb", "getbverb", "breset", "flush", "info"}}
MInit == st = Init0 /\ last = [op |-> "none"] /\ hist = <<>> /\ ghost = <<>> /\ n = 0
Do(a) == LET x == ApplyMsg(st, a) IN st' = x.s /\ last' = [op |-> a.op, a |-> a, out |-> x.out]
MNext == /\ n < MaxSteps /\ n' = n + 1
         /\ \E a \in Ops : Do(a) /\ hist' = <<>>
            /\ ghost' = IF a.op \in {"breset", "flush"} THEN <<>>
                        ELSE IF a.op \in {"msg", "toall"} /\ a.v >= st.bmin THEN Append(ghost, <<Clamp(a.v), a.m>>) ELSE ghost
GNext == (\E a \in {TLCEval(RandomElement(Ops))} : Do(a) /\ hist' = Append(hist, a)) /\ ghost' = <<>> /\ n' = n
View == <<st, ghost, n>>
All(out) == UNION {{<<u, out[u][k]>> : k \in 1..Len(out[u])} : u \in Units}
(* laws *)
AtMostOnce == [][last'.op \in {"msg", "toall"} => Cardinality(All(last'.out)) <= 1]_<<st, last, ghost, n>>
OnlyMessagesAndFlushWrite == [][last'.op \notin {"msg", "toall", "flush"} => last'.out = Nothing]_<<st, last, ghost, n>>
SettingsOnlyBySetters == [][last'.op \in {"msg", "toall", "flush", "breset", "unit", "info", "getverb", "getbverb"} =>
      st'.min = st.min /\ st'.can = st.can /\ st'.unit = st.unit /\ st'.bmin = st.bmin]_<<st, last, ghost, n>>
ErrorIsNotSilenced == [][last'.op = "toall" /\ last'.a.v >= st.min => last'.out # Nothing]_<<st, last, ghost, n>>
(* what is kept is what was issued, in order, repetitions once, the latest Cap *)
RECURSIVE Squeeze(_)
Squeeze(q) == IF Len(q) <= 1 THEN q ELSE LET h == Squeeze(SubSeq(q, 1, Len(q) - 1)) IN IF Last(h) = Last(q) THEN h ELSE Append(h, Last(q))
Kept == LET q == Squeeze(ghost) IN st.buf = (IF Len(q) > Cap THEN SubSeq(q, Len(q) - Cap + 1, Len(q)) ELSE q)
FlushEmpties == [][last'.op = "flush" => st'.buf = <<>>]_<<st, last, ghost, n>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
