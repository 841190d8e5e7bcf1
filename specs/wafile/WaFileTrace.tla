---------------------------- MODULE WaFileTrace ----------------------------
EXTENDS WaFile, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
R(s) == [i \in 1..Len(s) |-> [k |-> s[i][1], b |-> s[i][2], n |-> s[i][3]]]
Norm(s) == FoldLeft(Cat, <<>>, [i \in 1..Len(s) |-> <<s[i]>>])
Members(e) == LET m == e.mem IN [x \in {m[i].name : i \in 1..Len(m)} |-> Run(m[CHOOSE i \in 1..Len(m) : m[i].name = x /\ \A j \in 1..(i - 1) : m[j].name /= x].k, 0, m[CHOOSE i \in 1..Len(m) : m[i].name = x /\ \A j \in 1..(i - 1) : m[j].name /= x].n)]
Step(e) ==
   CASE e.op = "fnom" -> Fnom(e, e.ret, e.got)
     [] e.op = "fclos" -> Fclos(e.u, e.ret)
     [] e.op = "waopen" -> Waopen(e.u, e.ret)
     [] e.op = "waclos" -> Waclos(e.u, e.ret)
     [] e.op = "wawrit" -> e.kept /\ Wawrit(e.u, e.adr, Run(e.k, 0, e.n), e.ret)
     [] e.op = "waread" -> Waread(e.u, e.adr, e.n, e.ret, R(e.w)) /\ e.rest
     [] e.op = "wasize" -> Wasize(e.u, e.ret, e.blk)
     [] e.op = "writda" -> Writda(e.u, e.is, Run(e.k, 0, e.n * Blk))
     [] e.op = "readda" -> Readda(e.u, e.is, e.n, R(e.w)) /\ e.rest
     [] e.op = "checda" -> Checda(e.u)
     [] e.op = "getfdsc" -> Getfdsc(e.u, e.ret)
     [] e.op = "sqopen" -> Sqopen(e.u)
     [] e.op = "sqclos" -> Sqclos(e.u)
     [] e.op = "sqrew" -> Seek(e.u, FALSE)
     [] e.op = "sqeoi" -> Seek(e.u, TRUE)
     [] e.op = "sqget" -> Sqget(e.u, e.n, e.s, e.ret, e.b)
     [] e.op = "sqput" -> Sqput(e.u, e.b, e.s, e.ret)
     [] e.op = "name" -> Name(e.u, e.ret, e.nm)
     [] e.op = "rm" -> Remove(e.f)
     [] e.op = "existe" -> UNCHANGED vars /\ e.ret = (IF Exists(e.f) \/ e.f \in DOMAIN arc THEN 1 ELSE 0)
     [] e.op = "cat" -> /\ UNCHANGED vars
                        /\ IF Exists(e.f) THEN e.ret = 1 /\ (IF e.bytes THEN e.b = disk[e.f] ELSE R(e.w) = disk[e.f]) ELSE e.ret = 0
     [] e.op = "mkarc" -> arc' = Put(arc, e.f, Members(e)) /\ UNCHANGED <<disk, un, da>>
     [] OTHER -> FALSE
TInit == Init0 /\ l = 1
Reset == disk' = <<>> /\ arc' = <<>> /\ un' = <<>> /\ da' = {}
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN Reset ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
