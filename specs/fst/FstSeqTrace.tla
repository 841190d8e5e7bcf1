---------------------------- MODULE FstSeqTrace ----------------------------
EXTENDS FstSeq, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) ==
   CASE e.op = "sopen" -> SOpen(e.u, e)
     [] e.op = "close" -> SClose(e.u, e.ret)
     [] e.op = "ckp" -> SCkp(e.u, e.ret)
     [] e.op = "ecr" -> e.kept /\ SEcr(e.u, e)
     [] e.op = "inf" -> SInf(e.u, e)
     [] e.op = "infx" -> SInfx(e.u, e)
     [] e.op = "sui" -> SSui(e.u, e)
     [] e.op = "inl" -> SInl(e.u, e) /\ e.rest
     [] e.op = "lir" -> SLir(e.u, e)
     [] e.op = "lirx" -> SLirx(e.u, [at |-> "h"] @@ e)
     [] e.op = "lis" -> SLis(e.u, e)
     [] e.op = "luk" -> SLuk(e)
     [] e.op = "prm" -> SPrm(e)
     [] e.op = "eff" -> SEff(e)
     [] e.op = "edit" -> e.ret = -1 /\ UNCHANGED vars
     [] e.op = "msq" -> SMsq(e.u, e)
     [] e.op = "rwd" -> Rwd(e.u, e.ret)
     [] e.op = "skp" -> Skp(e.u, e.n, e.ret)
     [] e.op = "app" -> App(e.u, e.ret)
     [] e.op = "weo" -> Weo(e.u, e.lv, e.ret)
     [] e.op = "eofq" -> SEof(e.u, e.ret)
     [] e.op = "speek" -> SPeek(e)
     [] e.op = "rm" -> Rm(e.f)
     [] e.op = "crash" -> op' = <<>> /\ UNCHANGED fs
     [] OTHER -> FALSE
TInit == Init0 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN fs' = <<>> /\ op' = <<>>
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
