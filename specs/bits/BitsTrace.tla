------------------------------ MODULE BitsTrace ------------------------------
(* recorded calls (op, slot, widths, values, result, whole array after the call) against Bits *)
EXTENDS Bits
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
B16(h) == [i \in 1..16 |-> (h \div (2 ^ (16 - i))) % 2]
Wd(p) == B16(p[1]) \o B16(p[2])
RECURSIVE Cat(_)
Cat(ps) == IF ps = <<>> THEN <<>> ELSE Wd(Head(ps)) \o Cat(Tail(ps))
Vals(ps) == [k \in 1..Len(ps) |-> Wd(ps[k])]
Act(e) == CASE e.op = "set"  -> [op |-> "set", v |-> Cat(e.after)]
            [] e.op = "put"  -> [op |-> "put", ws |-> e.ws, vs |-> Vals(e.vs)]
            [] e.op = "get"  -> [op |-> "get", ws |-> e.ws]
            [] e.op = "swap" -> [op |-> "swap", n |-> e.n]
Step(e) == LET x == Apply(mem[e.sl], Act(e))
           IN /\ e.guard = TRUE                                     \* the words around the array and the inputs kept their content
              /\ Cat(e.after) = x.s
              /\ (e.op = "get" => Vals(e.out) = x.r)
              /\ mem' = [mem EXCEPT ![e.sl] = x.s]
TInit == mem = Init0 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN mem' = Init0 ELSE Step(Trace[l])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
