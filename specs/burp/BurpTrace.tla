---------------------------- MODULE BurpTrace ----------------------------
EXTENDS Burp, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Step(e) ==
   CASE e.op = "create" -> e.rc >= 0 /\ Keep
     [] e.op = "reopen" -> Reopen(e.rc)
     [] e.op = "ini" -> Ini(e.k, e.cap, e.h, e.rc)
     [] e.op = "upd" -> Upd(e.k, e.h, e.rc)
     [] e.op = "hdr" -> Hdr(e.k, e.h, e.nblk)
     [] e.op = "len" -> Lengths(e.k, e.used, e.left)
     [] e.op = "add" -> e.guard /\ e.kept /\ Add(e.k, e.x, e.els, e.d, e.rc, e.bkno, e.bit0, e.t2, e.nb2)
     [] e.op = "delb" -> e.guard /\ Del(e.k, e.n, e.rc)
     [] e.op = "rep" -> e.guard /\ e.kept /\ Rep(e.k, e.n, e.d, e.rc, e.t2, e.nb2)
     [] e.op = "xtr" -> e.guard /\ e.within /\ Xtr(e.k, e.n, e.rc, e.p, e.els, e.d)
     [] e.op = "prml" -> e.within /\ Prml(e.k, e.bk0, e.cnt, e.rc, e.rows)
     [] e.op = "loc" -> Loc(e.k, e.fam, e.desc, e.c, e.from, e.rc)
     [] e.op = "put" -> e.guard /\ Put(e.k, e.h, e.rc)
     [] e.op = "get" -> e.guard /\ Get(e.k, e.cap, e.h, e.rc, e.atcap)
     [] e.op = "fdel" -> DelRec(e.h, e.rc)
     [] e.op = "floc" -> FLoc(e.from, e.c, e.found)
     [] e.op = "prm" -> Prm(e.h, e.rc, e.p, e.lng)
     [] e.op = "counts" -> Counts(e.nbr, e.mxl)
     [] e.op = "names" -> Names(e.e, e.c, e.back, e.l, e.lback)
     [] e.op = "btyp" -> BTyp(e.nat, e.kt, e.st, e.typ, e.n2, e.k2, e.s2)
     [] OTHER -> FALSE
TInit == BInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN b' = <<>> /\ recs' = <<>> /\ long' = 0
            ELSE \E e \in {Trace[l]} : Step(e)
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
