---------------------------- MODULE XdfTrace ----------------------------
EXTENDS Xdf, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Defs(x) == [i \in 1..Len(x) |-> [len |-> x[i][1], up |-> x[i][2] = 1]]
\* after every edit the driver shows the whole buffer and whether the memory around it was left alone
Seen(e) == e.guard /\ ((~(e.k \in DOMAIN b')) \/ (e.nbits = b'[e.k].pre + Len(b'[e.k].c) /\ Shown(b'[e.k].c, e.all)))
Step(e) ==
   CASE e.op = "new" -> e.rc = 0 /\ Create(Defs(e.defs), Defs(e.adefs))
     [] e.op = "reopen" -> Reopen(e.rc)
     [] e.op = "ini" -> Ini(e.k, e.cap, e.typ, e.prim, e.info, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "upd" -> Upd(e.k, e.typ, e.prim, e.info, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "hdr" -> Hdr(e.k, e.typ, e.prim, e.info)
     [] e.op = "add" -> Add(e.k, e.d, e.n, e.nb, e.t, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "ins" -> Ins(e.k, e.d, e.p, e.n, e.nb, e.t, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "rep" -> Rep(e.k, e.d, e.p, e.n, e.nb, e.t, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "cut" -> Cutp(e.k, e.p, e.n, e.nb, e.t, e.rc) /\ (Seen(e) = TRUE)
     [] e.op = "xtr" -> Xtr(e.k, e.p, e.n, e.nb, e.t, e.rc, e.d) /\ e.within /\ (Seen(e) = TRUE)
     [] e.op = "put" -> IF e.h = 0 THEN PutNew(e.k, e.rc) ELSE PutOver(e.k, e.h, e.app, e.rc)
     [] e.op = "del" -> Del(e.h, e.rc)
     [] e.op = "get" -> Get(e.k, e.cap, e.h, e.rc, e.nbits) /\ (Seen(e) = TRUE)
     [] e.op = "prm" -> Prm(e.h, e.rc, e.typ, e.lng, e.prim)
     [] e.op = "loc" -> Loc(e.from, e.keys, e.found)
     [] e.op = "sta" -> Sta(e.nrec, e.nprm, e.naux, e.lens, e.alens, e.appl)
     [] OTHER -> FALSE
TInit == XInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN f' = NoFile /\ b' = <<>> /\ pos' = [at |-> 0, crit |-> <<>>]
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
