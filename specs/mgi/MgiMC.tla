----------------------------- MODULE MgiMC -----------------------------
(* Protocol level model: writer, server and reader as separate processes exchanging the messages of the protocol one at a time, in every
   interleaving and with the peer going away at any point; checked against the queue. And generation of behaviours. *)
EXTENDS Mgi, Json
CONSTANTS NMsg, GDepth
VARIABLES wpc, rpc, sw, sr, w2s, s2w, r2s, s2r, sent, acked, got, sq, wsz, gone, hist
pv == <<wpc, rpc, sw, sr, w2s, s2w, r2s, s2r, sent, acked, got, sq, wsz, gone>>
Put(ch, m) == Append(ch, m)
PInit == /\ MgInit /\ wpc = "idle" /\ rpc = "idle" /\ sw = "cmd" /\ sr = "cmd" /\ w2s = <<>> /\ s2w = <<>> /\ r2s = <<>> /\ s2r = <<>>
         /\ sent = 0 /\ acked = {} /\ got = <<>> /\ sq = <<>> /\ wsz = <<>> /\ gone = {} /\ hist = 0
U(S) == UNCHANGED S
\* the writer: command, its answer, SEND, length|data|length, two answers
WStep ==
  \/ /\ wpc = "idle" /\ sent < NMsg /\ "server" \notin gone /\ sent' = sent + 1 /\ w2s' = Append(w2s, "WRITE") /\ wpc' = "c" /\ U(<<s2w, acked>>)
     /\ \E s \in 1..2 : wsz' = Append(wsz, s)
  \/ /\ wpc \in {"c", "s", "a1", "a2"} /\ s2w # <<>> /\ s2w' = Tail(s2w) /\ U(<<sent, wsz>>)
     /\ CASE wpc = "c" -> wpc' = (IF Head(s2w) = "ACK" THEN "s" ELSE "idle") /\ U(<<w2s, acked>>)
          [] wpc = "s" -> wpc' = "a1" /\ w2s' = w2s \o <<<<"len", wsz[sent]>>, <<"data", sent>>, <<"len", wsz[sent]>>>> /\ U(acked)
          [] wpc = "a1" -> wpc' = (IF Head(s2w) = "ACK" THEN "a2" ELSE "nack2") /\ U(<<w2s, acked>>)
          [] wpc = "a2" -> wpc' = "idle" /\ acked' = (IF Head(s2w) = "ACK" THEN acked \cup {sent} ELSE acked) /\ U(w2s)
  \/ wpc = "nack2" /\ s2w # <<>> /\ s2w' = Tail(s2w) /\ wpc' = "idle" /\ U(<<sent, wsz, acked, w2s>>)
SWStep ==
  /\ "server" \notin gone /\ w2s # <<>>
  /\ \/ /\ sw = "cmd" /\ w2s' = Tail(w2s) /\ U(sq)
        /\ \/ s2w' = s2w \o <<"ACK", "SEND">> /\ sw' = "rec"
           \/ s2w' = Append(s2w, "NACK") /\ sw' = "cmd"
     \/ /\ sw = "rec" /\ Len(w2s) >= 3 /\ w2s' = SubSeq(w2s, 4, Len(w2s)) /\ sw' = "cmd"
        /\ \/ s2w' = s2w \o <<"ACK", "ACK">> /\ sq' = Append(sq, w2s[2][2])
           \/ s2w' = s2w \o <<"NACK", "NACK">> /\ U(sq)
RStep ==
  \/ rpc = "idle" /\ Len(got) < NMsg /\ "server" \notin gone /\ r2s' = Append(r2s, "READ") /\ rpc' = "c" /\ U(<<s2r, got>>)
  \/ /\ rpc = "c" /\ s2r # <<>> /\ s2r' = Tail(s2r) /\ U(got)
     /\ IF Head(s2r) = "ACK" THEN rpc' = "d" /\ r2s' = Append(r2s, "SEND") ELSE rpc' = "idle" /\ U(r2s)
  \/ /\ rpc = "d" /\ Len(s2r) >= 3 /\ s2r' = SubSeq(s2r, 4, Len(s2r))
     /\ \E want \in 1..2 : IF want = s2r[1][2] /\ s2r[1] = s2r[3]
                            THEN got' = Append(got, s2r[2][2]) /\ r2s' = Append(r2s, "ACK") /\ rpc' = "e"
                            ELSE r2s' = Append(r2s, "NACK") /\ rpc' = "idle" /\ U(got)
  \/ rpc = "e" /\ s2r # <<>> /\ s2r' = Tail(s2r) /\ rpc' = "idle" /\ U(<<r2s, got>>)
SRStep ==
  /\ "server" \notin gone /\ r2s # <<>> /\ r2s' = Tail(r2s)
  /\ \/ /\ sr = "cmd" /\ Head(r2s) = "READ" /\ U(sq)
        /\ IF sq = <<>> THEN s2r' = Append(s2r, "NACK") /\ sr' = "cmd" ELSE s2r' = Append(s2r, "ACK") /\ sr' = "send"
     \/ /\ sr = "send" /\ s2r' = s2r \o <<<<"len", wsz[Head(sq)]>>, <<"data", Head(sq)>>, <<"len", wsz[Head(sq)]>>>> /\ sr' = "ans" /\ U(sq)
     \/ /\ sr = "ans" /\ sr' = "cmd"
        /\ IF Head(r2s) = "ACK" THEN sq' = Tail(sq) /\ s2r' = Append(s2r, "ACK") ELSE U(<<sq, s2r>>)
Leave == "server" \notin gone /\ gone' = gone \cup {"server"} /\ U(<<wpc, rpc, sw, sr, w2s, s2w, r2s, s2r, sent, acked, got, sq, wsz>>)
PNext == /\ U(<<chans, qs, ended, hist>>)
         /\ \/ WStep /\ U(<<rpc, sw, sr, r2s, s2r, got, sq, gone>>)
            \/ SWStep /\ U(<<wpc, rpc, sr, r2s, s2r, sent, acked, got, wsz, gone>>)
            \/ RStep /\ U(<<wpc, sw, sr, w2s, s2w, sent, acked, sq, wsz, gone>>)
            \/ SRStep /\ U(<<wpc, rpc, sw, w2s, s2w, sent, acked, got, wsz, gone>>)
            \/ Leave
\* what the reader got are written messages, in order, each once; what was acknowledged is there or was read
Fifo == \A i, j \in 1..Len(got) : i < j => got[i] < got[j]
Kept == \A m \in acked : (\E i \in 1..Len(sq) : sq[i] = m) \/ (\E i \in 1..Len(got) : got[i] = m)
NoGap == \A m \in acked : (\E i \in 1..Len(got) : got[i] > m) => \E i \in 1..Len(got) : got[i] = m
(* --- behaviours ------------------------------------------------------------------------------------- *)
Rnd(S) == TLCEval(RandomElement(S))
A(x) == hist' = Append(hist, x)
VARIABLE last   \* type, length and room of the messages not read yet, per name
Ns == <<"a", "b", "c">>
GInit == MgInit /\ wpc = 0 /\ rpc = 0 /\ sw = 0 /\ sr = 0 /\ w2s = 0 /\ s2w = 0 /\ r2s = 0 /\ s2r = 0 /\ sent = 0 /\ acked = 0 /\ got = 0 /\ sq = 0 /\ wsz = 0 /\ gone = 0
         /\ hist = <<<<"init", "a", 0>>, <<"init", "a", 3>>, <<"init", "b", 0>>, <<"init", "b", 0>>, <<"open", 1, "W">>, <<"open", 2, "R">>, <<"open", 3, "W">>, <<"open", 4, "R">>>>
         /\ last = <<<<>>, <<>>>>
GNext == /\ Len(hist) < GDepth /\ U(<<chans, qs, ended>>) /\ U(pv)
         /\ \E o \in {Rnd(1..40)}, k \in {Rnd(1..2)}, t \in {Rnd({"I", "R", "D", "C"})}, n \in {Rnd({1, 1, 2, 3, 7, 20, 300})}, s \in {Rnd(1..9999)}, fl \in {Rnd(1..9)}, lt \in {Rnd({1, 5, 20, 40})} :
            IF o <= 14 THEN A(<<"w", 2 * k - 1, t, n, s, 0, lt>>) /\ last' = [last EXCEPT ![k] = Append(@, <<t, IF t = "C" /\ lt < n THEN lt ELSE n>>)]
            ELSE IF o <= 16 THEN A(<<"w", 2 * k - 1, t, n, s, fl, lt>>) /\ last' = IF fl \in {4, 5} THEN [last EXCEPT ![k] = Append(@, <<t, IF t = "C" /\ lt < n THEN lt ELSE n>>)] ELSE last
            ELSE IF o <= 28 /\ last[k] # <<>> THEN \E h \in {Head(last[k])} : A(<<"r", 2 * k, h[1], h[2], IF s % 3 = 0 THEN 5 ELSE 0, h[2] + (s % 4)>>) /\ last' = [last EXCEPT ![k] = Tail(@)]
            ELSE IF o <= 31 THEN A(<<"r", 2 * k, t, n, 0, lt>>) /\ U(last)
            ELSE IF o <= 33 THEN A(<<"r", 2 * k, t, n, fl, lt>>) /\ U(last)
            ELSE IF o = 34 THEN A(<<"clos", s % 5>>) /\ U(last)
            ELSE IF o <= 37 THEN A(<<IF s % 4 = 0 THEN "openlate" ELSE "open", 2 * k - 1, "W">>) /\ U(last)
            ELSE IF o <= 39 THEN A(<<IF s % 4 = 0 THEN "openlate" ELSE "open", 2 * k, "R">>) /\ U(last)
            ELSE A(IF s % 2 = 0 THEN <<"w", 2 * k - 1, "X", n, s, 0, lt>> ELSE <<"r", 2 * k, "X", n, 0, lt>>) /\ U(last)
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
PInit2 == PInit /\ last = 0
PNext2 == PNext /\ last' = last
=============================================================================
