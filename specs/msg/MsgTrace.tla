------------------------------ MODULE MsgTrace ------------------------------
EXTENDS Msg
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == st = Init0 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN st' = Init0 ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
