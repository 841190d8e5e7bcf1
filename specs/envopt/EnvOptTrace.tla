----------------------------- MODULE EnvOptTrace -----------------------------
EXTENDS EnvOpt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) == LET x == Apply(e) IN /\ e.calls = x.r
                                /\ e.env = x.s        \* every variable as getenv shows it after the call
                                /\ env' = x.s
TInit == env = Init0 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN env' = Init0 ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
