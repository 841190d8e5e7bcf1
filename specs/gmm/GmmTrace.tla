------------------------------ MODULE GmmTrace ------------------------------
EXTENDS Gmm
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == dir = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN dir' = <<>> ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
