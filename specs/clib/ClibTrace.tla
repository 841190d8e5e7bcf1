------------------------------ MODULE ClibTrace ------------------------------
EXTENDS Clib
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
ToSetOf(q) == {q[i] : i \in 1..Len(q)}
Snap(s) == {[p |-> x, k |-> s[x].k, m |-> s[x].m, s |-> s[x].s, t |-> s[x].t] : x \in (DOMAIN s) \ {<<>>}}
OutOk(a, x, e) == CASE a.op = "glob" -> IF x.r = OK THEN e.out.n = x.out.n /\ ToSetOf(e.out.files) = x.out.files /\ Len(e.out.files) = x.out.n ELSE e.out.n = x.out.n
                    [] a.op \in {"basename", "dirname"} -> (x.r = OK => e.out = x.out)
                    [] OTHER -> e.out = x.out
Step(e) == LET x == Apply(e) IN
   /\ e.r = x.r /\ e.guard = TRUE /\ OutOk(e, x, e)
   /\ ToSetOf(e.tree) = Snap(x.fs) /\ Len(e.tree) = Cardinality(Snap(x.fs))      \* exactly the requested change, nothing else
   /\ fs' = x.fs /\ cwd' = CwdAfter(e, x.r) /\ env' = EnvNext(e) /\ ctx' = ctx
TInit == fs = FS0 /\ cwd = <<>> /\ env = << >> /\ ctx = [root |-> TRUE, plen |-> 0] /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ CASE Trace[l].op = "reset" -> fs' = FS0 /\ cwd' = <<>> /\ env' = << >> /\ ctx' = ctx
              [] Trace[l].op = "start" -> ctx' = [root |-> Trace[l].root, plen |-> Trace[l].plen] /\ UNCHANGED <<fs, cwd, env>>
              [] OTHER -> Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
