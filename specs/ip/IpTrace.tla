-------------------------------- MODULE IpTrace --------------------------------
EXTENDS Ip, Json, IOUtils
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, ns
vars == <<recs, ask, ns>>
N(v) == Norm(v[1], v[2])
G(g) == <<N(<<g[1], g[2]>>), N(<<g[3], g[4]>>), g[5]>>
P(p) == <<N(<<p[1], p[2]>>), p[3]>>
D(p) == <<p[3], N(<<p[1], p[2]>>)>>
Three(F(_), t) == <<F(t[1]), F(t[2]), F(t[3])>>
Codes(e) == LET v == N(e.v) IN IF e.mode = 2 \/ (e.mode = 1 /\ ns) THEN EncNew(e.kind, v) ELSE IF e.kind \in Kinds THEN EncOld(e.kind, v) ELSE {Bad}
Step(e) ==
  CASE e.op = "init" -> ns' = TRUE /\ UNCHANGED <<recs, ask>>
    [] e.op = "enc"  -> e.ip \in Codes(e) /\ UNCHANGED vars
    [] e.op = "dec"  -> <<e.kind, N(e.v)>> = Dec(e.ip) /\ UNCHANGED vars
    [] e.op = "e3"   -> EncTriple(G(e.g[1]), G(e.g[2]), G(e.g[3]), e.st, e.ips) /\ UNCHANGED vars
    [] e.op = "d3"   -> DecTriple(e.ips[1], e.ips[2], e.ips[3], e.st, IF e.st \div Error = 1 THEN <<>> ELSE Three(G, e.g)) /\ UNCHANGED vars
    [] e.op = "pk"   -> PK(Three(P, e.p), e.st, e.ips) /\ UNCHANGED vars
    [] e.op = "ipk"  -> IPK(e.ips[1], e.ips[2], e.ips[3], e.st, IF e.st \div Error = 1 THEN <<>> ELSE Three(D, e.p)) /\ UNCHANGED vars
    [] e.op = "unit" -> e.s = Unit(e.kind) /\ UNCHANGED vars
    [] e.op = "rec"  -> e.rc = 0 /\ recs' = Append(recs, e.ips) /\ UNCHANGED <<ask, ns>>
    [] e.op \in {"all", "val"} ->
         LET v == N(e.v) old == IF e.op = "val" THEN <<>> ELSE <<e.old>> IN
         /\ e.ip \in EncNew(e.kind, v)
         /\ e.op = "all" => (IF e.kind < 4 THEN e.old \in EncOld(e.kind, v) ELSE e.old = -9999)
         /\ ask' = [ask EXCEPT ![e.pos] = @ \o <<e.ip>> \o old] /\ UNCHANGED <<recs, ns>>
    [] e.op = "find" -> /\ \A i \in 1..3 : (ask[i] # <<>> /\ e.want[i] # -1) => e.want[i] = ask[i][1]
                        /\ e.res = Found(e.want, e.from)
                        /\ ask' = <<<<>>, <<>>, <<>>>> /\ UNCHANGED <<recs, ns>>
TInit == l = 1 /\ recs = <<>> /\ ask = <<<<>>, <<>>, <<>>>> /\ ns = FALSE
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN recs' = <<>> /\ ask' = <<<<>>, <<>>, <<>>>> /\ ns' = FALSE ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
