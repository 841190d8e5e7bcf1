---------------------------- MODULE GossipTrace ----------------------------
(* recorded histories of the real calls. Every event has: ch (channel), side (0, 1), in = bytes the transport gave to
   the call, out = bytes the call gave to the transport, end = what the transport did to it:
     "open"   nothing unusual
     "closed" end of file, or connection reset on writing
     "stall"  the time given by the caller passed without a byte moving *)
EXTENDS Gossip, TLC, Json, SequencesExt, FiniteSets

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, sent, got, broken, tmo
vars == <<i, sent, got, broken, tmo>>
Ch == 0..7
Init == /\ i = 0 /\ sent = [c \in Ch |-> <<<<>>, <<>>>>]     \* per channel and direction: records accepted
        /\ got = [c \in Ch |-> <<<<>>, <<>>>>]               \* records delivered
        /\ broken = [c \in Ch |-> FALSE]
        /\ tmo = [c \in Ch |-> [s \in {0, 1} |-> 180]]

(* what was sent when everything should have gone out, or the beginning of it when the connection failed *)
Out(e, full) == IF e.end = "open" THEN e.out = full ELSE IsPre(e.out, full)
Side(e) == e.side + 1
Other(e) == 2 - e.side
NoRec == UNCHANGED <<sent, got>>
Breaks(e, failed) == broken' = [broken EXCEPT ![e.ch] = @ \/ failed]

(* the time waited for is the one set for the channel *)
Waits(e) == \A k \in 1..Len(e.waits) : e.waits[k] = tmo[e.ch][e.side]

WRec(e) == LET full == WOut(e.data, e.tok) IN
    /\ e.after = e.data                                 \* the caller's data are left as they were
    /\ IF Len(e.in) < 4 THEN e.end # "open" /\ e.res < 0 /\ e.out = <<>>
       ELSE IF e.end = "open" THEN Len(e.in) = WNeeds /\ e.out = full /\ (e.res = 0) = (WRes(e.in) = 0)
       ELSE /\ IsPre(e.out, full) \/ IsPre(e.out, full \o Nack) \/ (e.res < 0 /\ \E k \in 0..Len(full) : e.out = SubSeq(full, 1, k) \o Nack)
            /\ e.res = 0 => WRes(e.in) = 0
            /\ (Len(e.in) = WNeeds /\ e.out = full /\ WRes(e.in) = 0) => e.res = 0
    /\ sent' = IF e.res = 0 THEN [sent EXCEPT ![e.ch][Side(e)] = Append(@, e.data)] ELSE sent
    /\ Breaks(e, e.end # "open") /\ UNCHANGED got

RRec(e) == LET t == Tok(e.tok)
               ok == ROk(e.in, e.exp, e.max, t)
               nd == RNeeds(e.in, e.exp, e.max, t) IN
    /\ Len(e.in) <= nd
    /\ IF e.end = "open" THEN Len(e.in) = nd /\ e.out = ROut(ok)
                         ELSE IsPre(e.out, ROut(ok)) \/ e.out = Nack
    /\ e.ok = ok
    /\ ok => e.data = RData(e.in, t) /\ e.len = RLen(e.in, t) /\ e.mine
    /\ e.rest                                          \* nothing beyond the record was written in the caller's buffer
    /\ got' = IF ok THEN [got EXCEPT ![e.ch][Other(e)] = Append(@, e.data)] ELSE got
    /\ Breaks(e, e.end # "open") /\ UNCHANGED sent

WBytes(e) == /\ e.in = <<>> /\ Out(e, e.data) /\ (e.res = 0) = (e.out = e.data)
             /\ e.res # 0 => e.end # "open" /\ e.res = IF e.op = "wst" THEN Len(e.out) - Len(e.data) ELSE -1
             /\ NoRec /\ Breaks(e, e.res # 0)
RBytes(e) == LET whole == Len(e.in) = e.n IN
             /\ e.out = <<>> /\ Len(e.in) <= e.n
             /\ whole \/ e.end # "open"
             /\ whole => e.data = e.in
             /\ e.rest
             /\ e.res = IF whole THEN (IF e.op = "rft" THEN 0 ELSE e.n)
                        ELSE IF e.op = "rst" /\ (e.end = "stall" \/ e.res = 0) THEN 0 ELSE -1
             /\ NoRec /\ Breaks(e, ~whole)
(* acknowledgments, numbers, commands *)
SAck(e) == /\ e.in = <<>> /\ Out(e, IF e.status = 0 THEN Ack ELSE Nack) /\ NoRec /\ Breaks(e, e.end # "open")
GAck(e) == /\ e.out = <<>> /\ Len(e.in) <= 5 /\ (Len(e.in) < 5 => e.end # "open")
           /\ (e.res = 0) = (Len(e.in) = 5 /\ SubSeq(e.in, 1, 3) = SubSeq(Ack, 1, 3))
           /\ NoRec /\ Breaks(e, Len(e.in) < 5)
Bytes4(v) == <<v[1] \div 256, v[1] % 256, v[2] \div 256, v[2] % 256>>
PInt(e) == /\ e.in = <<>> /\ Out(e, Bytes4(e.v)) /\ NoRec /\ Breaks(e, e.end # "open")
GInt(e) == /\ e.out = <<>> /\ Len(e.in) <= 4 /\ (Len(e.in) < 4 => e.end # "open")
           /\ Len(e.in) = 4 => Bytes4(e.v) = e.in
           /\ NoRec /\ Breaks(e, Len(e.in) < 4)
Cmd(e) == /\ (IF e.end = "open" THEN e.out = e.data /\ Len(e.in) = 5 ELSE IsPre(e.out, e.data) /\ Len(e.in) <= 5)
          /\ (e.res = 0) = (Len(e.in) = 5 /\ SubSeq(e.in, 1, 3) = SubSeq(Ack, 1, 3))
          /\ NoRec /\ Breaks(e, e.end # "open")
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Cmd2(e) == /\ LET full == Rev(Tag(Len(e.data))) \o e.data IN
                 IF e.end = "open" THEN e.out = full /\ Len(e.in) = 5 /\ e.res = Len(full)
                                   ELSE IsPre(e.out, full)
           /\ NoRec /\ Breaks(e, e.end # "open")
(* the raw peer, and the end of the session: without faults all that was accepted was delivered, and the reverse;
   with faults what was accepted was delivered, and the deliveries are distinct records, in order *)
Raw(e) == NoRec /\ UNCHANGED broken
Fresh == /\ sent' = [c \in Ch |-> <<<<>>, <<>>>>] /\ got' = [c \in Ch |-> <<<<>>, <<>>>>] /\ broken' = [c \in Ch |-> FALSE]
         /\ tmo' = [c \in Ch |-> [s \in {0, 1} |-> 180]]
Session(e) == /\ \A c \in Ch : \A d \in {1, 2} :
                     IF ~broken[c] /\ e.paired THEN got[c][d] = sent[c][d] /\ ~broken[c]
                     ELSE e.paired => IsPre(sent[c][d], got[c][d])
              /\ e.left = 0 \/ \E c \in Ch : broken[c] \/ ~e.paired
              /\ Fresh
(* timeouts: the value set is the value waited; a negative one counts as its opposite *)
Abs(x) == IF x < 0 THEN -x ELSE x
STmo(e) == /\ e.get = Abs(e.t) /\ tmo' = [tmo EXCEPT ![e.ch][e.side] = Abs(e.t)] /\ NoRec /\ UNCHANGED broken
(* data of a channel saved in a file *)
Store(e) == e.res = 0 /\ e.file = e.data /\ e.size = Len(e.data) /\ NoRec /\ UNCHANGED broken
Load(e) == /\ IF e.had = 0 THEN e.res = -1 ELSE e.res = e.had /\ e.data = e.was /\ e.gone /\ e.back = e.was
           /\ NoRec /\ UNCHANGED broken

Step == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i + 1] IN
           IF e.op = "stmo" THEN STmo(e)
           ELSE IF e.op = "reset" THEN Fresh
           ELSE IF e.op = "session" THEN Session(e)
           ELSE UNCHANGED tmo /\
                IF e.op = "store" THEN Store(e) ELSE IF e.op = "load" THEN Load(e)
                ELSE IF e.op = "raw" THEN Raw(e)
                ELSE /\ ~e.hang /\ Waits(e)
                     /\ CASE e.op = "wrec" -> WRec(e) [] e.op = "rrec" -> RRec(e)
                          [] e.op \in {"wft", "wst"} -> WBytes(e) [] e.op \in {"rft", "rftc", "rst"} -> RBytes(e)
                          [] e.op = "sack" -> SAck(e) [] e.op = "gack" -> GAck(e)
                          [] e.op = "pint" -> PInt(e) [] e.op = "gint" -> GInt(e)
                          [] e.op = "cmd" -> Cmd(e) [] e.op = "cmd2" -> Cmd2(e)
                          [] OTHER -> FALSE
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
