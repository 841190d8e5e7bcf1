---------------------------- MODULE ApplVarTrace ----------------------------
EXTENDS ApplVar
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) == LET x == Apply(e) IN e.r = x.r.r /\ e.buf = x.r.buf /\ e.guard = TRUE /\ tab' = x.s
TInit == tab = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ IF Trace[l].op = "reset" THEN tab' = <<>> ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
