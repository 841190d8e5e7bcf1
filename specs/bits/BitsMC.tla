------------------------------- MODULE BitsMC -------------------------------
EXTENDS Bits
CONSTANTS Widths, MaxSlices, Depth
VARIABLES last, hist
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
BitVals == [1..W -> {0, 1}]
(* a value per slice: two patterns are enough to tell every bit position apart together with their rotations *)
Pat(k, c) == [i \in 1..W |-> IF c = 0 THEN (i + k) % 2 ELSE IF c = 1 THEN 1 ELSE IF (i * i + k) % 3 = 0 THEN 1 ELSE 0]
WsOK == {ws \in SeqsUpTo(Widths, MaxSlices) : Fits(ws)}
Ops == {[op |-> "put", sl |-> s, ws |-> ws, vs |-> [k \in 1..Len(ws) |-> Pat(k, c)]] : s \in 1..NS, ws \in WsOK, c \in 0..2}
   \cup {[op |-> "get", sl |-> s, ws |-> ws] : s \in 1..NS, ws \in WsOK}
   \cup {[op |-> "swap", sl |-> s, n |-> n] : s \in 1..NS, n \in 0..NW}
MInit == mem = Init0 /\ last = [a |-> [op |-> "none"]] /\ hist = <<>>
Do(a) == LET x == Apply(mem[a.sl], a) IN mem' = [mem EXCEPT ![a.sl] = x.s] /\ last' = [a |-> a, r |-> x.r]
MNext == \E a \in Ops : Do(a) /\ hist' = <<>>
Rnd(S) == TLCEval(RandomElement(S))
GNext == /\ Len(hist) < Depth
         /\ \E n \in {Rnd(0..MaxSlices)} : \E ws0 \in {TLCEval([k \in 1..n |-> RandomElement(Widths)])} :
            \E s \in {Rnd(1..NS)} : \E c \in {Rnd(0..3)} :
            \E ws \in {TLCEval(IF Fits(ws0) THEN ws0 ELSE SubSeq(ws0, 1, IF n > NW THEN NW ELSE n))} :
            \E a \in {IF c <= 1 THEN [op |-> "put", sl |-> s, ws |-> ws, vs |-> TLCEval([k \in 1..Len(ws) |-> TLCEval([i \in 1..W |-> RandomElement({0, 1})])])]
                     ELSE IF c = 2 THEN [op |-> "get", sl |-> s, ws |-> ws]
                     ELSE [op |-> "swap", sl |-> s, n |-> Rnd(0..NW)]} :
              Do(a) /\ hist' = Append(hist, a)
View == mem
(* the guarantees, as action properties *)
Low(v, e) == SubSeq(v, W - e + 1, W)
RoundTrip == [][last'.a.op = "put" => LET g == Get(mem'[last'.a.sl], last'.a.ws)
                   IN \A k \in 1..Len(g) : LET e == Eff(last'.a.ws[k]) IN g[k] = Zero(W - e) \o Low(last'.a.vs[k], e)]_<<mem, last>>
GetPure == [][last'.a.op = "get" => mem' = mem]_<<mem, last>>
PutBounded == [][last'.a.op = "put" => \A i \in 1..W * NW : i > W * Words(Total(last'.a.ws)) => mem'[last'.a.sl][i] = mem[last'.a.sl][i]]_<<mem, last>>
SwapInv == [][last'.a.op = "swap" => Swap(mem'[last'.a.sl], last'.a.n) = mem[last'.a.sl]]_<<mem, last>>
Others == [][\A s \in 1..NS : s # last'.a.sl => mem'[s] = mem[s]]_<<mem, last>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
