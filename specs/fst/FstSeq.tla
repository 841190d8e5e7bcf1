------------------------------ MODULE FstSeq -------------------------------
(* Sequential standard files (fstd98.c, xdf98.c): a tape of records and end-of-file marks and a position on it.

   fs[f]  tape = items [t |-> "rec", r, dead, a] (a: address in the handles, 0 as long as it was not seen) or [t |-> "eof", lv];
          wr = left in the write state (its writer died after a checkpoint, or is still there).
   op[u]  open unit: f, ro, pos = number of items before the position; q, qm = search target and mask it was given (tgt: is there one),
          m = the unit's search mask; at = the item that can be read (0: none); ev = end-of-file level of the last thing seen ("?" unknown).
   The file ends after its last item whether or not a mark of level 15 was written there. *)
EXTENDS Fst
Rec0(r) == [t |-> "rec", r |-> r, dead |-> FALSE, a |-> 0, lv |-> 0]
Eof(lv) == [t |-> "eof", r |-> 0, dead |-> FALSE, a |-> 0, lv |-> lv]
Tape(u) == fs[op[u].f].tape
Addr(h) == h[1] \div 128 + 8 * h[3] + 4096 * h[2]
Idx(h) == h[1] % 128
\* ---- searches
Good(t, i, q, m) == t[i].t = "rec" /\ ~t[i].dead /\ Match(t[i].r, q, m)
\* first item from position p (items before it) on that is wanted, before the next mark: 0 if none
NextMark(t, p) == IF \E i \in (p + 1)..Len(t) : t[i].t = "eof" THEN CHOOSE i \in (p + 1)..Len(t) : t[i].t = "eof" /\ \A j \in (p + 1)..(i - 1) : t[j].t /= "eof" ELSE 0
SFind(t, p, q, m) == LET e == NextMark(t, p) l == IF e = 0 THEN Len(t) ELSE e - 1 IN
   IF \E i \in (p + 1)..l : Good(t, i, q, m) THEN CHOOSE i \in (p + 1)..l : Good(t, i, q, m) /\ \A j \in (p + 1)..(i - 1) : ~Good(t, j, q, m) ELSE 0
\* after a search that found nothing: past the mark that stopped it, except that of the end of the file
Stop(t, p) == LET e == NextMark(t, p) IN IF e = 0 THEN <<Len(t), 15>> ELSE <<e, t[e].lv>>
\* the address of an item is always the same and its own
See(f, i, a) == /\ IF fs[f].tape[i].a = 0 THEN \A j \in DOMAIN fs[f].tape : fs[f].tape[j].a /= a ELSE fs[f].tape[i].a = a
                /\ fs' = [fs EXCEPT ![f].tape[i].a = a]
SSearch(u, p, q, m, e) ==
  LET t == Tape(u) i == SFind(t, p, q, m) IN
  IF i = 0 THEN /\ e.ret = -1 /\ UNCHANGED fs
                /\ op' = [op EXCEPT ![u].q = q, ![u].qm = m, ![u].tgt = TRUE, ![u].at = 0, ![u].pos = Stop(t, p)[1], ![u].ev = IF Len(t) = 0 THEN -1 ELSE Stop(t, p)[2]]
  ELSE /\ e.ret = 1 /\ Idx(e.h) = op[u].fi /\ See(op[u].f, i, Addr(e.h))
       /\ e.ni = t[i].r.ni /\ e.nj = t[i].r.nj /\ e.nk = t[i].r.nk
       /\ op' = [op EXCEPT ![u].q = q, ![u].qm = m, ![u].tgt = TRUE, ![u].at = i, ![u].pos = i, ![u].ev = 0]
SInf(u, e) == IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars ELSE SSearch(u, op[u].pos, Key(e), op[u].m, e)
SSui(u, e) == IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars
              ELSE IF ~op[u].tgt THEN e.ret = -1 /\ UNCHANGED vars ELSE SSearch(u, op[u].pos, op[u].q, op[u].qm, e)
Known(u, h) == {i \in DOMAIN Tape(u) : Tape(u)[i].a = Addr(h) /\ Tape(u)[i].a > 0}
SInfx(u, e) ==
  IF u \notin DOMAIN op \/ e.at = "bad" THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF e.at = "bof" THEN SSearch(u, 0, Key(e), op[u].m, e)
  ELSE IF e.at = "cur" THEN SSearch(u, op[u].pos, Key(e), op[u].m, e)
  ELSE IF Idx(e.from) /= op[u].fi THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF Known(u, e.from) = {} THEN FALSE                   \* the drivers use handles of records that are in the file
  ELSE \E i \in Known(u, e.from) : SSearch(u, i, Key(e), op[u].m, e)
\* a list of all the records up to the next mark
SWanted(t, p, q, m) == LET e == NextMark(t, p) l == IF e = 0 THEN Len(t) ELSE e - 1 IN SelectSeq([i \in 1..l |-> i], LAMBDA i : i > p /\ Good(t, i, q, m))
SInl(u, e) ==
  IF u \notin DOMAIN op THEN e.ret <= 0 /\ e.infon = 0 /\ UNCHANGED vars
  ELSE \E q \in {Key(e)} : LET t == Tape(u) p == op[u].pos w == SWanted(t, p, q, op[u].m) n == Len(w) k == IF n < e.max THEN n ELSE e.max
                               aOf(i) == Addr(e.l[CHOOSE j \in 1..k : w[j] = i]) IN
    /\ e.infon = k /\ e.ret = (IF n > e.max THEN -n ELSE 0) /\ Len(e.l) = k
    /\ \A j \in 1..k : Idx(e.l[j]) = op[u].fi /\ (t[w[j]].a = 0 \/ t[w[j]].a = Addr(e.l[j])) /\ \A i \in DOMAIN t : i /= w[j] => t[i].a /= Addr(e.l[j])
    /\ \A i, j \in 1..k : i < j => Addr(e.l[i]) /= Addr(e.l[j])
    /\ fs' = [fs EXCEPT ![op[u].f].tape = [i \in DOMAIN t |-> IF \E j \in 1..k : w[j] = i THEN [t[i] EXCEPT !.a = aOf(i)] ELSE t[i]]]
    /\ op' = [op EXCEPT ![u].q = q, ![u].qm = op[u].m, ![u].tgt = TRUE, ![u].at = 0, ![u].pos = Stop(t, p)[1], ![u].ev = IF Len(t) = 0 THEN -1 ELSE Stop(t, p)[2]]
    /\ k > 0 => \E j \in 1..k : /\ e.ni = t[w[j]].r.ni /\ e.nj = t[w[j]].r.nj /\ e.nk = t[w[j]].r.nk
                                /\ \A x \in 1..k : N(t[w[x]].r) <= N(t[w[j]].r)
\* ---- reading: what was just found
SData(e, r) == e.ni = r.ni /\ e.nj = r.nj /\ e.nk = r.nk /\ DataIs(r, e.w, e.d) /\ e.rest
SReadOk(u, e) == e.ret = 1 => SData(e, Tape(u)[op'[u].at].r)
SLir(u, e) == SInf(u, e) /\ SReadOk(u, e)
SLis(u, e) == SSui(u, e) /\ SReadOk(u, e)
SLirx(u, e) == SInfx(u, e) /\ SReadOk(u, e)
Holder(h) == {u \in DOMAIN op : op[u].fi = Idx(h)}
Readable(h) == \E u \in Holder(h) : op[u].at > 0 /\ Tape(u)[op[u].at].a = Addr(h)
Hold(h) == CHOOSE u \in Holder(h) : TRUE
SLuk(e) == /\ UNCHANGED vars
           /\ IF Readable(e.g) THEN LET x == Tape(Hold(e.g))[op[Hold(e.g)].at] IN IF x.dead THEN TRUE ELSE e.ret = 1 /\ e.h = e.g /\ SData(e, x.r) ELSE e.ret = -1
SPrm(e) == /\ UNCHANGED vars
           /\ IF Readable(e.g) THEN LET x == Tape(Hold(e.g))[op[Hold(e.g)].at] IN IF x.dead THEN TRUE ELSE e.ret = 0 /\ PrmIs(e, x.r) ELSE e.ret = -1
\* ---- moving
Rwd(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars ELSE ret = 0 /\ UNCHANGED fs /\ op' = [op EXCEPT ![u].pos = 0, ![u].at = 0]
\* forward: up to n records, not past a mark; backward: up to n records, not past the start (a mark in the way may be an error)
Fwd(t, p, n) == LET e == NextMark(t, p) l == IF e = 0 THEN Len(t) ELSE e - 1 IN IF p + n < l THEN p + n ELSE l
BackMark(t, p) == IF \E i \in 1..p : t[i].t = "eof" THEN CHOOSE i \in 1..p : t[i].t = "eof" /\ \A j \in (i + 1)..p : t[j].t /= "eof" ELSE 0
Back(t, p, n) == LET b == BackMark(t, p) IN IF p - n > b THEN p - n ELSE b
Skp(u, n, ret) ==
  IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars
  ELSE LET t == Tape(u) p == op[u].pos x == IF n > 0 THEN Fwd(t, p, n) ELSE Back(t, p, -n) blocked == n < 0 /\ BackMark(t, p) > 0 /\ p + n < BackMark(t, p) IN
    /\ UNCHANGED fs /\ op' = [op EXCEPT ![u].pos = x]
    /\ ret = 0 \/ blocked
App(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars
               ELSE LET t == Tape(u) e == NextMark(t, op[u].pos) IN ret = 0 /\ UNCHANGED fs
                    /\ op' = [op EXCEPT ![u].pos = IF e = 0 THEN Len(t) ELSE e - 1, ![u].at = 0, ![u].ev = IF e = 0 THEN -1 ELSE t[e].lv]
SEof(u, ret) == UNCHANGED vars /\ IF u \notin DOMAIN op THEN ret = -1 ELSE op[u].ev = -1 \/ ret = op[u].ev
\* ---- writing: what follows the position is lost
SEcr(u, e) ==
  IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF op[u].ro \/ ~InRange(e) THEN e.ret = -1 /\ UNCHANGED vars
  ELSE \E r \in {Rec(e)} : /\ e.ret = 0 /\ fs' = [fs EXCEPT ![op[u].f].tape = Append(SubSeq(@, 1, op[u].pos), Rec0(r))]
                           /\ op' = [op EXCEPT ![u].pos = @ + 1, ![u].at = IF @ > op[u].pos THEN 0 ELSE @]
Weo(u, lv, ret) ==
  IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars
  ELSE IF op[u].ro \/ lv \notin 1..15 THEN ret = -1 /\ UNCHANGED vars
  ELSE /\ ret = 0 /\ fs' = [fs EXCEPT ![op[u].f].tape = SubSeq(@, 1, op[u].pos) \o (IF lv < 15 THEN <<Eof(lv)>> ELSE <<>>)]
       /\ op' = [op EXCEPT ![u].pos = IF lv < 15 THEN @ + 1 ELSE @, ![u].at = IF @ > op[u].pos THEN 0 ELSE @]
SEff(e) ==
  IF Holder(e.g) = {} THEN e.ret = -1 /\ UNCHANGED vars
  ELSE LET u == Hold(e.g) k == Known(u, e.g) IN
    IF k = {} THEN FALSE
    ELSE \E i \in k : IF op[u].ro \/ Tape(u)[i].dead THEN e.ret = -1 /\ UNCHANGED vars
                      ELSE e.ret = 0 /\ fs' = [fs EXCEPT ![op[u].f].tape[i].dead = TRUE] /\ UNCHANGED op
SMsq(u, e) == Msq(u, e)
\* ---- opening and closing
SSession(f, ro, fi) == [f |-> f, ro |-> ro, pos |-> 0, q |-> 0, qm |-> NoMask, tgt |-> FALSE, m |-> NoMask, at |-> 0, ev |-> -1, fi |-> fi]
SOpen(u, e) ==
  LET f == e.f ro == e.ro > 0 IN
  IF u \in DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF f \notin DOMAIN fs THEN
    IF ro THEN e.ret = -1 /\ UNCHANGED vars
    ELSE e.ret = 0 /\ op' = Put(op, u, SSession(f, FALSE, e.fi)) /\ fs' = Put(fs, f, [tape |-> <<>>, wr |-> FALSE])
  ELSE IF fs[f].wr /\ ~ro THEN e.ret = -1 /\ UNCHANGED vars
  ELSE e.ret >= 0 /\ (\A v \in DOMAIN op : op[v].fi /= e.fi) /\ op' = Put(op, u, SSession(f, ro, e.fi)) /\ UNCHANGED fs
SClose(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars
                  ELSE ret = 0 /\ op' = Del(op, u) /\ IF op[u].ro THEN UNCHANGED fs ELSE fs' = [fs EXCEPT ![op[u].f].wr = FALSE]
SCkp(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars ELSE ret = 0 /\ UNCHANGED op /\ IF op[u].ro THEN UNCHANGED fs ELSE fs' = [fs EXCEPT ![op[u].f].wr = TRUE]
\* another process reads the tape from one end to the other
Shown(t) == SelectSeq(t, LAMBDA x : x.t = "eof" \/ ~x.dead)
SPeek(e) ==
  /\ UNCHANGED vars
  /\ IF e.f \notin DOMAIN fs THEN e.ret = -1
     ELSE LET s == Shown(fs[e.f].tape) IN
       /\ e.ret >= 0 /\ Len(e.items) = Len(s) /\ (e.last = 15 \/ fs[e.f].tape = <<>>) /\ e.cls = 0
       /\ \A i \in DOMAIN s : LET x == e.items[i] y == s[i] IN
            IF y.t = "eof" THEN x.eof = y.lv
            ELSE x.eof = 0 /\ (y.a = 0 \/ Addr(x.h) = y.a) /\ PrmIs(x, y.r) /\ DataIs(y.r, x.data.w, x.data.d) /\ x.data.rest
Rm(f) == fs' = Del(fs, f) /\ UNCHANGED op
=============================================================================
