------------------------------ MODULE OrderTrace ------------------------------
EXTENDS Order
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
(* every event carries the arrays after the call; guard: the words around them (and unused operands) are as before *)
Step(e) ==
  /\ e.guard = TRUE
  /\ CASE e.op = "load"   -> arr' = e.arr /\ idx' = e.idx
       [] e.op = "ipsort" -> /\ e.arr = arr /\ IpResult(e.kind, arr, e.idx) = TRUE /\ arr' = arr /\ idx' = e.idx
       [] e.op = "csort"  -> /\ e.arr = arr /\ CResult(e.kind, arr, idx, e.idx) = TRUE /\ arr' = arr /\ idx' = e.idx
       [] e.op = "sort"   -> /\ e.arr = Sorted(arr) /\ e.idx = idx /\ arr' = e.arr /\ idx' = idx
       [] e.op = "permut" -> /\ e.arr = FlipRows(arr, e.ni, e.nj) \o SubSeq(arr, e.ni * e.nj + 1, Len(arr)) /\ e.idx = idx /\ arr' = e.arr /\ idx' = idx
       [] e.op = "move"   -> /\ e.dst = Move(e.what, e.n, e.src) /\ UNCHANGED <<arr, idx>>
       [] e.op = "cast"   -> /\ e.dst = e.src /\ UNCHANGED <<arr, idx>>
TInit == arr = <<>> /\ idx = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN arr' = <<>> /\ idx' = <<>> ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
