---------------------------- MODULE PackTrace ----------------------------
EXTENDS Pack, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Rec(e) == [dt |-> e.dt, nb |-> e.nb, es |-> e.es, dims |-> <<e.ni, e.nj, e.nk>>, F |-> e.F, mf |-> e.mf]
Step(e) ==
   CASE e.op \in {"w", "x"} -> Write(Rec(e), e.ret, e.kept)
     [] e.op = "r" -> e.ok /\ Read(e.k, e.es, <<e.ni, e.nj, e.nk>>, e.G, e.rest)
     [] e.op = "reopen" -> Reopen
     [] OTHER -> FALSE
TInit == PInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN recs' = <<>> /\ op' = <<>>
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
