------------------------------- MODULE Gossip -------------------------------
(* Gossip channels: what each call must do, as a function of its arguments and of the bytes the peer supplied.
   How the transport cuts the stream (fragments, interrupted calls, "try again") is no argument of the functions. *)
EXTENDS Integers, Sequences

Req  == <<83, 69, 78, 68>>          \* "SEND"
Ack  == <<65, 67, 75, 0, 0>>
Nack == <<78, 65, 67, 75, 0>>

Pre(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Tag(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
(* the four bytes at position k+1; -1 stands for a negative number *)
Num(s, k) == IF s[k+1] > 127 THEN -1 ELSE ((s[k+1] * 256 + s[k+2]) * 256 + s[k+3]) * 256 + s[k+4]
Tok(t) == IF t > 1 THEN t ELSE 1
(* network order is big-endian, this machine is little-endian: the bytes of each whole token are reversed *)
Swap(s, t) == [i \in 1..Len(s) |->
                 IF t \in {2, 4, 8} /\ i <= (Len(s) \div t) * t
                 THEN s[((i - 1) \div t) * t + t - ((i - 1) % t)] ELSE s[i]]

(* --- a record is sent: wait for the request, length | data | length, wait for the acknowledgment.
       in: the bytes received by the call, out: the bytes it sent *)
WOut(data, t) == Tag(Len(data)) \o Swap(data, t) \o Tag(Len(data))
WNeeds == Len(Req) + Len(Ack)
WRes(in) == IF Len(in) >= WNeeds /\ SubSeq(in, 5, 7) = SubSeq(Ack, 1, 3) THEN 0 ELSE -1

(* --- a record is received: exp = expected number of tokens (0: any), max = limit (0: none) *)
Limit(in, max, t) == max > 0 /\ Num(in, 0) > max * t
RNeeds(in, exp, max, t) ==      \* number of bytes of input that the call takes, when they come
    IF Len(in) < 4 THEN 4
    ELSE IF Num(in, 0) < 0 THEN 4 ELSE 8 + Num(in, 0)
RWhole(in, exp, max, t) == Len(in) >= RNeeds(in, exp, max, t)
ROk(in, exp, max, t) ==
    /\ Len(in) >= 4 /\ RWhole(in, exp, max, t)
    /\ Num(in, 0) > 0
    /\ ~Limit(in, max, t)
    /\ (exp > 0 => exp * t = Num(in, 0))
    /\ SubSeq(in, 1, 4) = SubSeq(in, 5 + Num(in, 0), 8 + Num(in, 0))
RData(in, t) == Swap(SubSeq(in, 5, 4 + Num(in, 0)), t)
RLen(in, t) == Num(in, 0) \div t
ROut(ok) == Req \o (IF ok THEN Ack ELSE Nack)
=============================================================================
