------------------------------ MODULE WBTrace -------------------------------
EXTENDS WB, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Step(e) ==
  CASE e.op = "new" -> New(e.w)
    [] e.op = "free" -> Free(e.w, e.rc)
    [] e.op = "put" -> e.kept /\ Put(e.w, e.name, e.t, e.s, e.n, e.o, e.v, e.rc)
    [] e.op = "get" -> e.within /\ Get(e.w, e.name, e.t, e.s, e.n, e.rc, e.v)
    [] e.op = "meta" -> Meta(e.w, e.name, e.rc, e.t, e.s, e.n, e.o)
    [] e.op = "keys" -> e.within /\ Keys(e.w, e.p, e.max, e.width, e.rc, e.list)
    [] e.op = "check" -> Check(e.w, e.p, e.mask, e.rc)
    [] e.op = "lock" -> Lock(e.w, e.p, e.rc, e.after)
    [] e.op = "ckpt" -> Checkpoint(e.rc)
    [] e.op = "restart" -> Restart(e.how, e.rc)
    [] e.op = "reload" -> Reload(e.rc)
    [] e.op = "ckname" -> CkName(e.i, e.got, e.rc)
    [] e.op = "read" -> Read(e.w, e.there, e.pk, e.mode, e.ds, e.rc)
    [] e.op = "fds" -> Keep /\ e.n = 0
    [] OTHER -> FALSE
TInit == WInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN bd' = [x \in {0} |-> <<>>] /\ files' = <<>> /\ cur' = 0
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
