------------------------------ MODULE DatesTrace ------------------------------
EXTENDS Dates, Json, IOUtils
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
C == Cal(nl, cc)
(* outputs that the mode gives, after the return code *)
Outs(e) == CASE e.mode \in {1, 6} -> <<e.d1, e.d3>> [] e.mode \in {-1, -6} -> <<e.d2>> [] e.mode \in {2, 3, 5, 7} -> <<e.d1>> [] e.mode \in {-2, -3, -5, -7} -> <<e.d2, e.d3>> [] OTHER -> <<>>
Same(a, r) == Len(r) > 1 => \A i \in 2..Len(r) : a[i-1] = r[i]
DocND(e) == \/ e.mode \in {1, 6} /\ Alias(e.b)
            \/ e.mode \in {-3, -5} /\ Alias(e.a)
            \/ \E r \in {ND(e.mode, e.a, e.b, e.c)} : r[1] = e.r /\ Same(Outs(e), r)
AmtOk(a) == a[2] \in 0..719
Step(e) ==
  CASE e.op = "nd"  -> DocND(e) /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "inc" -> /\ AmtOk(e.amt)
                       /\ (~Alias(e.st) /\ Known(C, e.st)) => e.res \in Inc(C, e.st, e.amt, e.round)
                       /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "dif" -> /\ (Known(C, e.s1) /\ Known(C, e.s2) /\ ~Alias(e.s1) /\ ~Alias(e.s2)) =>
                            (IF e.round /\ ~(IsX(e.s1) \/ IsX(e.s2)) /\ StOk(e.s1) /\ StOk(e.s2) THEN e.res = Dif(C, e.s1, e.s2, TRUE) ELSE e.res = Dif(C, e.s1, e.s2, FALSE))
                       /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "mgp" -> /\ ~Alias(e.st) => (e.w = Mgp(e.st) /\ e.w14 = e.st)
                       /\ e.txt = <<e.w[1], e.w[2], e.w[3], e.w[4], e.w[5], e.w[6] \div 6000, (e.w[6] \div 100) % 60>>
                       /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "mg2" -> e.res = Mg2(e.w) /\ e.w14 = e.res /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "jd"  -> /\ e.jd = Day(e.y, e.m, e.d) + JulianOffset /\ <<e.by, e.bm, e.bd>> = <<e.y, e.m, e.d>> /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "dj"  -> /\ <<e.y, e.m, e.d>> = Civil(e.jd - JulianOffset) /\ e.back = e.jd /\ UNCHANGED <<nl, cc, lock>>
    [] e.op = "start" -> /\ lock' = (e.env \in {"365_day", "360_day", "gregorian"})
                         /\ nl' = (e.env \in {"365_day", "360_day"}) /\ cc' = (e.env = "360_day")
    [] e.op = "set"   -> Set(e.year) /\ UNCHANGED lock
    [] e.op = "unset" -> Unset(e.year) /\ UNCHANGED lock
    [] e.op = "get"   -> /\ e.year = (CASE C = "360" -> "360_day" [] C = "365" -> "365_day" [] OTHER -> "gregorian")
                         /\ e.noleap = nl /\ e.d360 = cc /\ e.leap = (C # "greg") /\ UNCHANGED <<nl, cc, lock>>
TInit == l = 1 /\ nl = FALSE /\ cc = FALSE /\ lock = FALSE
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN nl' = FALSE /\ cc' = FALSE /\ lock' = FALSE ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
