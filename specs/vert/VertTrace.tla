------------------------------ MODULE VertTrace ------------------------------
EXTENDS Vert
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == st = None /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN st' = None ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
