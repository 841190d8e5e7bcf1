---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Filters
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Rec(e) == [nv |-> e.nv, tv |-> e.tv, et |-> e.et, g |-> e.g, t |-> e.t, ip |-> e.ip, n |-> e.n]
Put1(e) == recs' = [i \in DOMAIN recs \cup {e.id} |-> IF i = e.id THEN Rec(e) ELSE recs[i]]
Rng(q) == {q[i] : i \in 1..Len(q)}
Step(e) == CASE e.op = "rec" -> e.r = 0 /\ Put1(e) /\ UNCHANGED <<req, rng, off, bun>>
             [] e.op \in {"str", "ip", "date", "sup"} -> Sel(e)
             [] e.op = "clear" -> Reset(e)
             [] e.op = "group" -> Group(e)
             [] e.op \in {"on", "off"} -> Switch(e)
             [] e.op \in {"desire", "exclure"} -> Sense(e)
             [] e.op = "init" -> Cleared /\ UNCHANGED <<off, recs>>
             [] e.op = "rewr" -> e.r = 0 /\ UNCHANGED vars                        \* a rewrite replaces its record, whatever the filters
             [] e.op = "find" -> Rng(e.ids) = Found(e.nv) /\ Len(e.ids) = Cardinality(Rng(e.ids)) /\ UNCHANGED vars
             [] e.op = "match" -> e.r = Match(recs[e.id]) /\ UNCHANGED vars
TInit == FInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ IF Trace[l].op = "reset" THEN Cleared /\ off' = FALSE /\ recs' = << >> ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
