------------------------------ MODULE FstrTrace ------------------------------
EXTENDS Fstr
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TSize == <<1, 6, 8, 12, 16, 40>>
Shown(e, s) == IF "slots" \in DOMAIN e THEN \A k \in 1..Len(e.slots) : e.slots[k][2] = s.mem[e.slots[k][1]] ELSE TRUE
Result(e, r) == IF e.op = "hget" THEN Take(e.r, Len(r)) = r ELSE e.r = r
Step(e) == LET x == Apply(e) IN /\ Result(e, x.r) = TRUE
                                /\ Shown(e, x.s) = TRUE
                                /\ e.guard = TRUE          \* nothing outside the slots shown has changed
                                /\ Set(x.s)
TInit == mem = Init0.mem /\ cs = Init0.cs /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN Set(Init0) ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
