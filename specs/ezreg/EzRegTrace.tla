---------------------------- MODULE EzRegTrace ----------------------------
EXTENDS EzReg, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES cat, live, cur, opts, l
D(k) == cat[k]
(* a supergrid's identity is made of its kind and of the definitions of its parts *)
Res(e) == IF e.rc < 0 THEN e.frc < 0 ELSE e.rc = e.frc /\ e.h = e.fh
Query(e) == /\ e.kept /\ e.guard /\ Res(e)
            /\ e.opts = opts                                       \* the fresh process had the same options
            /\ IF e.set THEN cur # NoPair /\ live[cur.o].d = D(e.o) /\ live[cur.i].d = D(e.i) ELSE e.id \in DOMAIN live /\ live[e.id].d = D(e.i)
Prm(e) == e.id \in DOMAIN live /\ e.p = live[e.id].d
Step(e) == CASE e.op = "cat" -> cat' = Put(cat, e.k, e.p) /\ UNCHANGED <<live, cur, opts>>
   [] e.op = "def" -> MayDefine(live, D(e.k), e.id) /\ live' = Defined(live, D(e.k), e.id) /\ UNCHANGED <<cat, cur, opts>>
   [] e.op = "rls" -> e.id \in DOMAIN live /\ e.rc = 0 /\ live' = Released(live, e.id) /\ cur' = PairAfterRelease(cur, live') /\ UNCHANGED <<cat, opts>>
   [] e.op = "set" -> {e.o, e.i} \subseteq DOMAIN live /\ e.rc >= 0 /\ cur' = [o |-> e.o, i |-> e.i] /\ UNCHANGED <<cat, live, opts>>
   [] e.op = "cur" -> (cur = NoPair \/ (e.o = cur.o /\ e.i = cur.i)) /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "prm" -> (Prm(e) = TRUE) /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "sub" -> e.id \in DOMAIN live /\ e.n = (IF live[e.id].d.typ = "U" THEN 2 ELSE 1) /\ (live[e.id].d.typ = "U" => \A k \in {1, 2} : e.subs[k] \in DOMAIN live /\ live[e.subs[k]].d = live[e.id].d.subs[k]) /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "opt" -> e.rc = (IF SetOk(e.name, e.value) THEN 0 ELSE None) /\ opts' = SetOpt(opts, e.name, e.value) /\ UNCHANGED <<cat, live, cur>>
   [] e.op = "gopt" -> e.rc = 0 /\ e.value = GetOpt(opts, e.name) /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "val" -> e.rc = 0 /\ opts' = (IF e.name \in RealNames \cup IntNames THEN [opts EXCEPT ![e.name] = e.value] ELSE opts) /\ UNCHANGED <<cat, live, cur>>
   [] e.op = "gval" -> e.rc = 0 /\ e.value = opts[e.name] /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "smask" -> e.id \in DOMAIN live /\ e.rc = 0 /\ live' = [live EXCEPT ![e.id].mask = e.m] /\ UNCHANGED <<cat, cur, opts>>
   [] e.op = "gmask" -> e.id \in DOMAIN live /\ (IF live[e.id].mask = <<>> THEN e.rc = None ELSE e.rc = 0 /\ e.m = live[e.id].mask) /\ UNCHANGED <<cat, live, cur, opts>>
   [] e.op = "q" -> (Query(e) = TRUE) /\ UNCHANGED <<cat, live, cur, opts>>
   [] OTHER -> FALSE /\ UNCHANGED <<cat, live, cur, opts>>
TInit == cat = << >> /\ live = << >> /\ cur = NoPair /\ opts = Opt0 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ IF Trace[l].op = "reset" THEN cat' = << >> /\ live' = << >> /\ cur' = NoPair /\ opts' = Opt0 ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
