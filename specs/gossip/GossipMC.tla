------------------------------ MODULE GossipMC ------------------------------
(* The protocol over a transport that cuts the stream anywhere, with a peer that may disappear at any point.
   Writer and reader are two processes; every step moves some bytes between a process and the transport.
   Checked: the outcome of every call is the one of the functions of module Gossip, a record that the writer
   knows accepted was delivered, deliveries are a prefix of the records sent, in order, none twice, and after
   a refusal both sides are at the start of the next record. *)
EXTENDS Gossip, TLC, Json, FiniteSets

CONSTANTS Recs,      \* number of records
          Cap,       \* capacity of the transport, per direction
          Faults     \* TRUE: the connection may be cut

VARIABLES sess,      \* what each side is to do: sequence of [data, t, exp, max]
          wk, rk,    \* index of the current record, per side
          wpc, rpc,  \* phase
          wout, rout,\* bytes still to be sent by the current phase
          win, rin,  \* bytes received by the current call
          wr, rw,    \* the transport
          cut,       \* "no", "yes"
          acc, del,  \* outcomes: acc = results of the writer's calls, del = of the reader's
          hist
vars == <<sess, wk, rk, wpc, rpc, wout, rout, win, rin, wr, rw, cut, acc, del, hist>>

Datas == {<<>>, <<1>>, <<1, 2>>, <<7, 8, 9, 10>>}
Whole(d, t) == Len(d) % t = 0
Items == {[data |-> d, t |-> t, exp |-> e, max |-> m] : d \in Datas, t \in {1, 2}, e \in {0, 1}, m \in {0, 1}}
ItemOk(x) == Whole(x.data, x.t)

Init == /\ sess \in [1..Recs -> {x \in Items : ItemOk(x)}]
        /\ wk = 1 /\ rk = 1 /\ wpc = "req" /\ rpc = "req" /\ wout = <<>> /\ rout = Req
        /\ win = <<>> /\ rin = <<>> /\ wr = <<>> /\ rw = <<>> /\ cut = FALSE /\ acc = <<>> /\ del = <<>> /\ hist = <<>>

(* transport steps *)
Chunk(n) == {k \in {1, 3, n} : k <= n /\ k >= 1}
WPush == /\ wout # <<>> /\ ~cut
         /\ \E k \in Chunk(Len(wout)) : /\ Len(wr) + k <= Cap
                                        /\ wr' = wr \o SubSeq(wout, 1, k) /\ wout' = SubSeq(wout, k + 1, Len(wout))
         /\ UNCHANGED <<sess, wk, rk, wpc, rpc, rout, win, rin, rw, cut, acc, del, hist>>
RPush == /\ rout # <<>> /\ ~cut
         /\ \E k \in Chunk(Len(rout)) : /\ Len(rw) + k <= Cap
                                        /\ rw' = rw \o SubSeq(rout, 1, k) /\ rout' = SubSeq(rout, k + 1, Len(rout))
         /\ UNCHANGED <<sess, wk, rk, wpc, rpc, wout, win, rin, wr, cut, acc, del, hist>>
WWants == IF wk > Recs \/ wout # <<>> THEN 0 ELSE IF wpc = "req" THEN 4 - Len(win) ELSE IF wpc = "ack" THEN 9 - Len(win) ELSE 0
WPull == /\ WWants > 0 /\ rw # <<>>
         /\ \E k \in Chunk(Len(rw)) : /\ k <= WWants
                                      /\ win' = win \o SubSeq(rw, 1, k) /\ rw' = SubSeq(rw, k + 1, Len(rw))
         /\ UNCHANGED <<sess, wk, rk, wpc, rpc, wout, rout, rin, wr, cut, acc, del, hist>>
R == sess[rk]
RWants == IF rk > Recs \/ rout # <<>> \/ rpc = "end" THEN 0
          ELSE IF rpc = "req" THEN (IF Len(rin) < 4 THEN 4 - Len(rin) ELSE RNeeds(rin, R.exp, R.max, R.t) - Len(rin)) ELSE 0
RPull == /\ RWants > 0 /\ wr # <<>>
         /\ \E k \in Chunk(Len(wr)) : /\ k <= RWants
                                      /\ rin' = rin \o SubSeq(wr, 1, k) /\ wr' = SubSeq(wr, k + 1, Len(wr))
         /\ UNCHANGED <<sess, wk, rk, wpc, rpc, wout, rout, win, rw, cut, acc, del, hist>>

(* phases *)
WGot == /\ wk <= Recs /\ wpc = "req" /\ Len(win) = 4
        /\ wpc' = "ack" /\ wout' = WOut(sess[wk].data, sess[wk].t)
        /\ UNCHANGED <<sess, wk, rk, rpc, rout, win, rin, wr, rw, cut, acc, del, hist>>
WEnd == /\ wk <= Recs /\ wpc = "ack" /\ wout = <<>> /\ Len(win) = 9
        /\ acc' = Append(acc, WRes(win)) /\ wk' = wk + 1 /\ wpc' = "req" /\ win' = <<>>
        /\ UNCHANGED <<sess, rk, rpc, wout, rout, rin, wr, rw, cut, del, hist>>
RGot == /\ rk <= Recs /\ rpc = "req" /\ rout = <<>> /\ Len(rin) >= 4 /\ RWants = 0
        /\ rpc' = "end" /\ rout' = IF ROk(rin, R.exp, R.max, R.t) THEN Ack ELSE Nack
        /\ UNCHANGED <<sess, wk, rk, wpc, wout, win, rin, wr, rw, cut, acc, del, hist>>
REnd == /\ rk <= Recs /\ rpc = "end" /\ (rout = <<>> \/ cut)
        /\ del' = Append(del, IF ROk(rin, R.exp, R.max, R.t) THEN [ok |-> TRUE, data |-> RData(rin, R.t), n |-> RLen(rin, R.t)]
                                                             ELSE [ok |-> FALSE, data |-> <<>>, n |-> 0])
        /\ rk' = rk + 1 /\ rin' = <<>> /\ rpc' = "req" /\ rout' = IF rk < Recs /\ ~cut THEN Req ELSE <<>>
        /\ UNCHANGED <<sess, wk, wpc, wout, win, wr, rw, cut, acc, hist>>
(* the connection is cut: what is in the transport may still arrive *)
Cut == /\ Faults /\ ~cut /\ cut' = TRUE
       /\ UNCHANGED <<sess, wk, rk, wpc, rpc, wout, rout, win, rin, wr, rw, acc, del, hist>>
WFail == /\ cut /\ wk <= Recs /\ (wout # <<>> \/ (WWants > 0 /\ rw = <<>>))
         /\ acc' = Append(acc, -1) /\ wk' = Recs + 1
         /\ UNCHANGED <<sess, rk, wpc, rpc, wout, rout, win, rin, wr, rw, cut, del, hist>>
RFail == /\ cut /\ rk <= Recs /\ rpc = "req" /\ (rout # <<>> \/ (RWants > 0 /\ wr = <<>>))
         /\ del' = Append(del, [ok |-> FALSE, data |-> <<>>, n |-> 0]) /\ rk' = Recs + 1
         /\ UNCHANGED <<sess, wk, wpc, rpc, wout, rout, win, rin, wr, rw, cut, acc, hist>>
Next == WPush \/ RPush \/ WPull \/ RPull \/ WGot \/ WEnd \/ RGot \/ REnd \/ Cut \/ WFail \/ RFail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a record that suits the reader's limits *)
Suits(x) == /\ Len(x.data) > 0 /\ (x.max > 0 => Len(x.data) <= x.max * x.t) /\ (x.exp > 0 => x.exp * x.t = Len(x.data))
Intact == \A k \in 1..Len(del) : del[k].ok => /\ Suits(sess[k]) /\ del[k].data = sess[k].data /\ del[k].n * sess[k].t = Len(sess[k].data)
Known == \A k \in 1..Len(acc) : acc[k] = 0 => /\ k <= Len(del) \/ rk >= k
                                              /\ k <= Len(del) => del[k].ok
Clean == ~cut => /\ \A k \in 1..Len(del) : del[k].ok = Suits(sess[k])
                 /\ \A k \in 1..Len(acc) : (acc[k] = 0) = Suits(sess[k])
InStep == (rk > wk => wk = rk - 1) /\ (wk > rk /\ ~cut => wk = rk + 1)
AtEnd == (wk > Recs /\ rk > Recs /\ ~cut) => (wr = <<>> /\ rw = <<>> /\ wout = <<>> /\ rout = <<>>)
(* sessions for the real code: the items of a behaviour *)
Emit == PrintT("BEHAVIOUR " \o ToJson(sess))
Rnd(S) == TLCEval(RandomElement(S))
GI == /\ sess = [k \in 1..6 |-> LET x == Rnd(Items) IN IF ItemOk(x) THEN x ELSE [x EXCEPT !.data = <<1, 2>>]]
      /\ wk = 1 /\ rk = 1 /\ wpc = "req" /\ rpc = "req" /\ wout = <<>> /\ rout = Req
      /\ win = <<>> /\ rin = <<>> /\ wr = <<>> /\ rw = <<>> /\ cut = FALSE /\ acc = <<>> /\ del = <<>> /\ hist = <<>>
GN == sess' = [k \in 1..6 |-> LET x == Rnd(Items) IN IF ItemOk(x) THEN x ELSE [x EXCEPT !.data = <<1, 2>>]] /\ UNCHANGED <<wk, rk, wpc, rpc, wout, rout, win, rin, wr, rw, cut, acc, del, hist>>
Ends == <>(wk > Recs /\ rk > Recs)
=============================================================================
