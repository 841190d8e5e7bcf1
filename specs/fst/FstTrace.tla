----------------------------- MODULE FstTrace ------------------------------
EXTENDS Fst, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, lks, pend, sums      \* linked list; call in progress when the process may die; checksums of the files seen
None == [what |-> "none"]
H(h) == <<h[1], h[2], h[3]>>
\* a file that no one has open for writing does not change
SumOk(e) == IF ~e.there THEN e.f \notin DOMAIN fs ELSE e.f \in DOMAIN sums => sums[e.f] = <<e.n, e.x>>
Busy(f) == \E u \in DOMAIN op : op[u].f = f /\ ~op[u].ro
Keep == {f \in DOMAIN sums : f \in DOMAIN fs' /\ ~\E u \in DOMAIN op' : op'[u].f = f /\ ~op'[u].ro}
Step(e) ==
   CASE e.op = "open" -> Open(e.u, e)
     [] e.op = "close" -> Close(e.u, e.ret)
     [] e.op = "ckp" -> Ckp(e.u, e.ret)
     [] e.op = "ecr" -> e.kept /\ Ecr(e.u, e)
     [] e.op = "inf" -> Inf(e.u, e)
     [] e.op = "infx" -> Infx(e.u, e)
     [] e.op = "sui" -> Sui(e.u, e)
     [] e.op = "inl" -> Inl(e.u, e) /\ e.rest
     [] e.op = "lir" -> Lir(e.u, e)
     [] e.op = "lirx" -> Lirx(e.u, [op |-> "lirx", at |-> "h"] @@ e)
     [] e.op = "lis" -> Lis(e.u, e)
     [] e.op = "luk" -> Luk(e)
     [] e.op = "prm" -> Prm(e)
     [] e.op = "eff" -> Eff(e)
     [] e.op = "edit" -> Edit(e)
     [] e.op = "nbr" -> Nbr(e.u, e)
     [] e.op = "msq" -> Msq(e.u, e)
     [] e.op = "link" -> Link(e.l, e.ret)
     [] e.op = "unlink" -> Unlink(lks, e.ret)
     [] e.op = "peek" -> Peek(e)
     [] e.op = "rm" -> Remove(e.f)
     [] e.op = "try" -> UNCHANGED vars
     [] e.op = "crash" -> Crash(pend)
     [] e.op = "sum" -> UNCHANGED vars /\ SumOk(e)
     [] OTHER -> FALSE
TInit == Init0 /\ l = 1 /\ lks = <<>> /\ pend = None /\ sums = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ IF Trace[l].op = "reset" THEN fs' = <<>> /\ op' = <<>> /\ lks' = <<>> /\ pend' = None /\ sums' = <<>>
            ELSE \E e \in {Trace[l]} :
                    /\ Step(e)
                    /\ lks' = IF e.op = "link" THEN e.l ELSE IF e.op \in {"unlink", "crash"} THEN <<>> ELSE lks
                    /\ pend' = IF e.op = "try" THEN e ELSE None
                    /\ sums' = IF e.op = "sum" THEN (IF e.there /\ ~Busy(e.f) THEN Put(sums, e.f, <<e.n, e.x>>) ELSE sums) ELSE [f \in Keep |-> sums[f]]
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
