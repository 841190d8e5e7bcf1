------------------------------ MODULE FstSeqMC ------------------------------
(* Model checking of FstSeq.tla (one tape, at most two units on two files) and the generator of behaviours that are replayed into the code. *)
EXTENDS FstSeq, Json
CONSTANTS Depth, GDepth
VARIABLES n, hist        \* number of records written; number of steps, or the script being generated
mvars == <<fs, op, n, hist>>
Units == {11, 12}
FileOf == [u \in Units |-> IF u = 11 THEN "fa" ELSE "fb"]
Q(nv) == [dv |-> -1, et |-> "", ip1 |-> -1, ip2 |-> -1, ip3 |-> -1, tv |-> "", nv |-> nv]
W(nv, ni, k) == [npak |-> -32, dv |-> 0, deet |-> 0, npas |-> 0, ni |-> ni, nj |-> 1, nk |-> 1, ip1 |-> 1, ip2 |-> 0, ip3 |-> 0, tv |-> "P", nv |-> nv, et |-> "E", gt |-> "X",
                 ig1 |-> 0, ig2 |-> 0, ig3 |-> 0, ig4 |-> 0, dt |-> 5, rew |-> FALSE, k |-> k]
\* model addresses: the place on the tape
Hd(u, i) == <<op[u].fi + 128 * (i % 8), 0, i \div 8>>
Hs(u) == {Hd(u, i) : i \in DOMAIN Tape(u)}
Res(h, ret) == [ret |-> ret, h |-> h, ni |-> 1, nj |-> 1, nk |-> 1]
MInit == Init0 /\ n = 0 /\ hist = 0
Same == UNCHANGED n
Seen(u, i) == Tape(u)[i].a > 0
OneUnit == {11}
MNext ==
  /\ hist < Depth /\ hist' = hist + 1
  /\ \/ \E u \in OneUnit, ro \in {0, 1}, ret \in {0, -1} : u \notin DOMAIN op /\ SOpen(u, [f |-> FileOf[u], ro |-> ro, ret |-> ret, fi |-> u]) /\ Same
     \/ \E u \in DOMAIN op : SClose(u, 0) /\ Same
     \/ \E u \in DOMAIN op : SCkp(u, 0) /\ Same
     \/ \E u \in DOMAIN op, nv \in {"TT", "UU"}, ret \in {0, -1} : SEcr(u, W(nv, 1, n + 1) @@ [ret |-> ret]) /\ n' = n + 1
     \/ \E u \in DOMAIN op, lv \in {1, 15}, ret \in {0, -1} : Weo(u, lv, ret) /\ Same
     \/ \E u \in DOMAIN op, nv \in {"", "TT"} : (\E h \in Hs(u) \cup {<<0, 0, 0>>} : SInf(u, Q(nv) @@ Res(h, IF h[1] = 0 THEN -1 ELSE 1)) /\ (h[1] > 0 => op'[u].at > 0 /\ h = Hd(u, op'[u].at))) /\ Same
     \/ \E u \in DOMAIN op : (\E h \in Hs(u) \cup {<<0, 0, 0>>} : SSui(u, Res(h, IF h[1] = 0 THEN -1 ELSE 1)) /\ (h[1] > 0 => op'[u].at > 0 /\ h = Hd(u, op'[u].at))) /\ Same
     \/ \E u \in DOMAIN op : Rwd(u, 0) /\ Same
     \/ \E u \in DOMAIN op : App(u, 0) /\ Same
     \/ \E u \in DOMAIN op, k \in {1, 2, -1} : Skp(u, k, 0) /\ Same
     \/ \E u \in DOMAIN op : \E i \in DOMAIN Tape(u), ret \in {0, -1} : Seen(u, i) /\ SEff([g |-> Hd(u, i), ret |-> ret]) /\ Same
     \/ op /= <<>> /\ op' = <<>> /\ UNCHANGED fs /\ Same
MSpec == MInit /\ [][MNext]_mvars
\* ---- properties
Keys == {Key(Q("")), Key(Q("TT")), Key(Q("UU"))}
Positions == \A u \in DOMAIN op : op[u].pos \in 0..Len(Tape(u)) /\ op[u].at \in 0..Len(Tape(u))
Addresses == \A f \in DOMAIN fs : \A i, j \in DOMAIN fs[f].tape : i /= j /\ fs[f].tape[i].a > 0 => fs[f].tape[i].a /= fs[f].tape[j].a
\* reading on after every mark shows all that is wanted, once, in the order of the tape, and every mark
RECURSIVE ReadOn(_, _, _, _)
ReadOn(t, p, q, k) == LET i == SFind(t, p, q, NoMask) IN
   IF k = 0 THEN <<"endless">> ELSE IF i > 0 THEN <<i>> \o ReadOn(t, i, q, k - 1) ELSE LET s == Stop(t, p) IN IF s[2] = 15 THEN <<>> ELSE <<s[1]>> \o ReadOn(t, s[1], q, k - 1)
Reads == \A f \in DOMAIN fs : \A q \in Keys : LET t == fs[f].tape IN
   ReadOn(t, 0, q, 20) = SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : t[i].t = "eof" \/ Good(t, i, q, NoMask))
\* a list of the part after the position is what searching from it finds
Lists == \A f \in DOMAIN fs : \A q \in Keys : LET t == fs[f].tape IN \A p \in 0..Len(t) :
   LET w == SWanted(t, p, q, NoMask) IN w = <<>> \/ (w[1] = SFind(t, p, q, NoMask) /\ \A i \in 1..(Len(w) - 1) : w[i + 1] = SFind(t, w[i], q, NoMask))
\* skipping forward then back the number of records passed comes back; skipping stays between two marks
Skips == \A f \in DOMAIN fs : LET t == fs[f].tape IN \A p \in 0..Len(t), k \in 1..3 :
   LET x == Fwd(t, p, k) IN x >= p /\ Back(t, x, x - p) = p /\ (\A i \in (p + 1)..x : t[i].t = "rec") /\ (\A i \in (Back(t, p, k) + 1)..p : t[i].t = "rec")
\* steps: what is before the position of the writer stays, records only die; nothing changes the file of a read-only unit; what was written is found right behind the position
Keeps(x, y) == x.t = y.t /\ x.r = y.r /\ x.lv = y.lv /\ (x.dead => y.dead)
Tapes == [][\A f \in DOMAIN fs : f \in DOMAIN fs' /\ LET t == fs[f].tape s == fs'[f].tape IN
   /\ \A i \in DOMAIN t \cap DOMAIN s : Keeps(t[i], s[i]) \/ \E u \in DOMAIN op : op[u].f = f /\ ~op[u].ro /\ i > op[u].pos
   /\ Len(s) < Len(t) => \E u \in DOMAIN op : op[u].f = f /\ ~op[u].ro /\ Len(s) >= op[u].pos
   /\ Len(s) <= Len(t) + 1]_mvars
Wrote == [][n' > n /\ (\E u \in DOMAIN op : ~op[u].ro) => \A u \in DOMAIN op : ~op[u].ro => fs'[op[u].f].tape[op[u].pos + 1].r.k = n' /\ Len(fs'[op[u].f].tape) = op[u].pos + 1]_mvars
\* ---- behaviours for the code ----
Rnd(S) == TLCEval(RandomElement(S))
GInit == Init0 /\ n = 0 /\ hist = <<>>
A(x) == hist' = Append(hist, x)
GNext == Len(hist) < GDepth /\
  \E o \in {Rnd(1..34)}, u \in {Rnd({11, 11, 12})}, nv \in {Rnd({"TT", "TT", "UU", "GZ"})}, ni \in {Rnd({1, 2, 3, 5, 6})}, b \in {Rnd(BOOLEAN)}, k \in {Rnd({1, 1, 2, 3, -1, -1, -2})}, lv \in {Rnd({1, 1, 2, 14, 15})} :
   LET Idle == UNCHANGED <<fs, op, n>> /\ A([op |-> "speek", u |-> u, f |-> FileOf[u]])
       On == u \in DOMAIN op
       Srch(q, tx) == \E i \in {SFind(Tape(u), op[u].pos, q, NoMask)} : UNCHANGED n /\ A(tx) /\
           IF i = 0 THEN SSearch(u, op[u].pos, q, NoMask, [ret |-> -1]) ELSE SSearch(u, op[u].pos, q, NoMask, [ret |-> 1, h |-> Hd(u, i), ni |-> Tape(u)[i].r.ni, nj |-> 1, nk |-> 1]) IN
   IF o <= 1 \/ (~On /\ o <= 28) THEN IF On THEN Idle ELSE UNCHANGED n /\ A([op |-> "sopen", u |-> u, f |-> FileOf[u], ro |-> IF o = 5 THEN 1 ELSE 0]) /\
        LET ro == IF o = 5 THEN 1 ELSE 0 IN \E ret \in {0, -1} : SOpen(u, [f |-> FileOf[u], ro |-> ro, ret |-> ret, fi |-> u])
   ELSE IF o > 32 THEN Idle
   ELSE IF ~On THEN Idle
   ELSE IF o = 2 THEN SClose(u, 0) /\ UNCHANGED n /\ A([op |-> "close", u |-> u])
   ELSE IF o = 3 THEN IF b THEN SCkp(u, 0) /\ UNCHANGED n /\ A([op |-> "ckp", u |-> u]) ELSE IF op[u].ro THEN Idle ELSE op' = <<>> /\ UNCHANGED <<fs, n>> /\ A([op |-> "crash"])
   ELSE IF o <= 11 THEN n' = n + 1 /\ SEcr(u, W(nv, ni, n + 1) @@ [ret |-> IF op[u].ro THEN -1 ELSE 0]) /\ A([op |-> "ecr", u |-> u, nv |-> nv, ni |-> ni, ip1 |-> 0, rew |-> b])
   ELSE IF o <= 14 THEN Weo(u, lv, IF op[u].ro THEN -1 ELSE 0) /\ UNCHANGED n /\ A([op |-> "weo", u |-> u, n |-> lv])
   ELSE IF o <= 19 THEN Srch(Key(Q(IF b THEN nv ELSE "")), [op |-> "inf", u |-> u, nv |-> IF b THEN nv ELSE "-", ip1 |-> -1])
   ELSE IF o <= 21 THEN IF op[u].tgt THEN Srch(op[u].q, [op |-> "sui", u |-> u]) ELSE Idle
   ELSE IF o = 22 THEN IF \E i \in DOMAIN Tape(u) : Seen(u, i) /\ ~Tape(u)[i].dead /\ op[u].at = i THEN SEff([g |-> Hd(u, op[u].at), ret |-> IF op[u].ro THEN -1 ELSE 0]) /\ UNCHANGED n /\ A([op |-> "eff", u |-> u]) ELSE Idle
   ELSE IF o <= 25 THEN Rwd(u, 0) /\ UNCHANGED n /\ A([op |-> "rwd", u |-> u])
   ELSE IF o <= 27 THEN App(u, 0) /\ UNCHANGED n /\ A([op |-> "app", u |-> u])
   ELSE IF o <= 30 THEN Skp(u, k, 0) /\ UNCHANGED n /\ A([op |-> "skp", u |-> u, n |-> k])
   ELSE UNCHANGED <<fs, op, n>> /\ A([op |-> "eofq", u |-> u])
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
