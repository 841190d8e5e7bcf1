---------------------------- MODULE MgiTrace ----------------------------
EXTENDS Mgi, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) ==
   CASE e.op = "init" -> MInit_(e.name, e.ch)
     [] e.op = "open" -> Open(e.ch, e.mode, e.rc, e.xm, e.xn)
     [] e.op = "down" -> OpenDown(e.ch, e.rc)
     [] e.op = "timeout" -> Timeout(e.ch)
     [] e.op = "w" -> Write(e.ch, e.t, e.n, e.lt, e.b, e.fault, e.rc, e.queued, e.wire) /\ e.kept
     [] e.op = "r" -> Read(e.ch, e.t, e.n, e.lt, e.fault, e.rc, e.b, e.popped) /\ e.within
     [] e.op = "clos" -> Close(e.ch, e.rc, e.end)
     [] e.op = "term" -> Term(e.end)
     [] OTHER -> FALSE
TInit == MgInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN chans' = <<>> /\ qs' = <<>> /\ ended' = {}
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
