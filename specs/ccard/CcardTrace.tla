----------------------------- MODULE CcardTrace -----------------------------
EXTENDS Ccard
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Accept(e) == LET o == Outcome(e) IN
   /\ IF o.exit <= 0 THEN e.exit = o.exit ELSE e.exit > 0          \* -1: returned; 0: help, exit(0); stop on error: a failure status
   /\ e.rep = o.rep
   /\ (o.exit = -1 => e.v = o.v /\ e.np = o.np /\ (e.kind = "f" => e.av = o.av))
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN TRUE ELSE IF Trace[l].op = "parse" THEN Accept(Trace[l]) = TRUE ELSE FALSE
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
