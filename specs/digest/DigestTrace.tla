----------------------------- MODULE DigestTrace -----------------------------
EXTENDS Digest
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) == LET x == Apply(e) IN e.r = x.r /\ e.guard = TRUE /\ Set(x.s)
TInit == IsInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN Set(Init0) ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
