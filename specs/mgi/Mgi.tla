------------------------------- MODULE Mgi -------------------------------
(* MGI channels (src/primitives/mgilib2.c): named queues kept by a server, written through channels opened
   in mode W and read through channels opened in mode R. A message is a sequence of bytes as they go over
   the wire: elements in order, each with its most significant byte first.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES chans,   \* channels in the order of mgi_init: [name, mode, up]; mode "" not open
          qs,      \* name -> messages
          ended    \* names whose writer or reader closed
mv == <<chans, qs, ended>>
MaxChan == 23
Q(n) == IF n \in DOMAIN qs THEN qs[n] ELSE <<>>
Size(t) == CASE t = "D" -> 8 [] t = "C" -> 1 [] OTHER -> 4
Types == {"I", "R", "D", "C"}
Wire(t, b) == [i \in 1..Len(b) |-> LET s == Size(t) k == (i - 1) \div s IN b[s * k + s - ((i - 1) % s)]]
Clamp(t, n, lt) == IF t = "C" /\ lt < n THEN lt ELSE n
IsOpen(c, m) == c \in 1..Len(chans) /\ chans[c].mode = m /\ chans[c].up
Down(c) == chans' = [chans EXCEPT ![c].up = FALSE]
MInit_(name, ch) ==
  IF Len(chans) >= MaxChan THEN ch < 0 /\ UNCHANGED mv
  ELSE ch = Len(chans) + 1 /\ chans' = Append(chans, [name |-> name, mode |-> "", up |-> FALSE]) /\ UNCHANGED <<qs, ended>>
\* xm, xn: the mode and the name the server was asked for
Open(c, m, rc, xm, xn) ==
  /\ UNCHANGED <<qs, ended>>
  /\ IF c \in 1..Len(chans)
     THEN rc = c /\ xm = (IF m = "W" THEN "write" ELSE "read") /\ xn = chans[c].name /\ chans' = [chans EXCEPT ![c].mode = m, ![c].up = TRUE]
     ELSE rc < 0 /\ xm = "" /\ UNCHANGED chans
OpenDown(c, rc) == rc < 0 /\ UNCHANGED <<qs, ended>> /\ IF c \in 1..Len(chans) THEN chans' = [chans EXCEPT ![c].mode = "", ![c].up = FALSE] ELSE UNCHANGED chans
(* fault: what the server did. 0: nothing. 1: refused the command, 2: closed, 3 and 6: refused the record, 4: took it and then reported an
   error, 5: took it and closed, 7: did not answer, 8: closed while the data was coming, 9: closed before its answer *)
Write(c, t, n, lt, b, fault, rc, queued, wire) ==
  LET k == Clamp(t, n, lt) w == Wire(t, SubSeq(b, 1, k * Size(t))) IN
  /\ UNCHANGED ended
  /\ IF n <= 0 \/ k <= 0 \/ t \notin Types \/ ~IsOpen(c, "W")
     THEN rc < 0 /\ ~queued /\ UNCHANGED <<chans, qs>>
     ELSE /\ (rc = 0) <=> (fault = 0)
          /\ fault # 0 => rc < 0
          /\ queued <=> fault \in {0, 4, 5}
          /\ queued => wire = w
          /\ qs' = IF queued THEN [x \in DOMAIN qs \cup {chans[c].name} |-> IF x = chans[c].name THEN Append(Q(x), w) ELSE qs[x]] ELSE qs
          /\ IF fault \in {2, 5, 7, 8, 9} THEN Down(c) ELSE UNCHANGED chans
(* fault: 0 and 5 (the answer came in pieces): nothing. 1: refused, 2: closed, 3: the lengths around the data differ, 4: closed in the
   middle of the data, 6: closed before the data, 7: did not answer, 8: closed before the second length *)
Read(c, t, n, lt, fault, rc, b, popped) ==
  LET k == Clamp(t, n, lt) IN
  /\ UNCHANGED ended
  /\ IF n <= 0 \/ k <= 0 \/ t \notin Types \/ ~IsOpen(c, "R") THEN rc < 0 /\ ~popped /\ UNCHANGED <<chans, qs>>
     ELSE IF Q(chans[c].name) = <<>> THEN rc < 0 /\ ~popped /\ UNCHANGED <<chans, qs>>
     ELSE LET m == Head(Q(chans[c].name)) IN
          IF fault \in {0, 5} /\ Len(m) = k * Size(t)
          THEN /\ rc = k /\ popped
               /\ Len(b) >= Len(m) /\ Wire(t, SubSeq(b, 1, Len(m))) = m
               /\ \A i \in (Len(m) + 1)..Len(b) : b[i] = 32
               /\ qs' = [qs EXCEPT ![chans[c].name] = Tail(@)] /\ UNCHANGED chans
          ELSE /\ rc < 0 /\ ~popped /\ UNCHANGED qs
               /\ IF fault \in {2, 4, 6, 7, 8} THEN Down(c) ELSE UNCHANGED chans
(* closing: the server is told, and nothing more goes through the channel *)
Close(c, rc, end) ==
  /\ UNCHANGED qs
  /\ IF c \in 1..Len(chans) /\ chans[c].mode # ""
     THEN rc = 0 /\ end = "END " \o chans[c].name \o ";" /\ ended' = ended \cup {chans[c].name} /\ chans' = [chans EXCEPT ![c].mode = "", ![c].up = FALSE]
     ELSE end = "" /\ UNCHANGED <<chans, ended>>
Term(end) ==
  /\ UNCHANGED <<qs, ended>>
  /\ end # "" <=> \E c \in 1..Len(chans) : chans[c].mode # ""
  /\ chans' = [c \in 1..Len(chans) |-> [chans[c] EXCEPT !.mode = "", !.up = FALSE]]
Timeout(c) == UNCHANGED mv
MgInit == chans = <<>> /\ qs = <<>> /\ ended = {}
=============================================================================
