-------------------------------- MODULE Fst --------------------------------
(* Random-access standard files (fstd98.c, xdf98.c): what is in the files, what the open units see of them, the
   search each unit is in the middle of, the linked collections, and what a process that dies leaves behind.

   fs[f]  the file on disk: dir = directory entries at the last checkpoint or close, wr = left in the write state by a
          checkpoint without close, st = "ok", "fresh" (created, never checkpointed nor closed: unusable) or "odd"
          (the writer died inside a checkpoint or close: anything may be found);
          gr = records were added since then (the size is not the one the header tells), tl = such a tail was left by a death.
   op[u]  an open unit: dir = the entries as this unit sees them; n0 = number of entries when opened; m = the unit's
          search mask; q, qm = current search target and the mask it was given; cur = where the search continues;
          lk = unit linked after this one (0: none); fi = number of the file in the handles.
   entry  live, r = parameters (with k, the tag of the field), un = the field on disk is not the one of these parameters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
CONSTANT PageN                  \* entries per directory page
VARIABLES fs, op
vars == <<fs, op>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Max(a, b) == IF a < b THEN b ELSE a
Full == 268435455               \* 28 bits
\* ---- strings: blank padded, upper case
Ups == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Up(c) == IF c \in DOMAIN Ups THEN Ups[c] ELSE c
RECURSIVE UpS(_)
UpS(s) == IF Len(s) = 0 THEN "" ELSE Up(SubSeq(s, 1, 1)) \o UpS(SubSeq(s, 2, Len(s)))
Blanks == "            "
Pad(s, n) == UpS(SubSeq(s \o Blanks, 1, n))
Blank(s) == s = SubSeq(Blanks, 1, Len(s))
\* ---- what is kept of a field: number of bits and data type
Nbits0(npak) == IF npak = 0 THEN 32 ELSE IF npak < 0 THEN -npak ELSE Max(1, 32 \div npak)
Kept(npak, dt) ==
  LET nb == Nbits0(npak)
      a == IF dt = 1 /\ nb \in {31, 32} THEN <<32, 5>> ELSE <<nb, dt>>
  IN IF npak \in {0, 1} THEN <<a[1], 0>> ELSE a
Words64(r) == (r.ni * r.nj * r.nk * r.nbits + 183) \div 64     \* length of the field of uncompressed types
SameLength(a, b) == Words64(a) = Words64(b)
\* ---- the field of a record
Pow2(n) == 2 ^ n
Small(r) == r.dt \in {2, 4} /\ r.nbits < 31
N(r) == r.ni * r.nj * r.nk
Runs(r) == LET n == IF r.dt = 0 THEN (N(r) * r.nbits + 31) \div 32 ELSE IF r.dt = 5 /\ r.nbits = 64 THEN 2 * N(r) ELSE N(r) IN IF n = 0 THEN <<>> ELSE <<<<r.k, 0, n>>>>
Ints(r) == [i \in 1..N(r) |-> IF r.dt = 4 THEN ((r.k * 7 + i - 1) % Pow2(r.nbits)) - Pow2(r.nbits - 1) ELSE (r.k * 7 + i - 1) % Pow2(r.nbits)]
DataIs(r, w, d) == IF Small(r) THEN d = Ints(r) /\ w = <<>> ELSE w = Runs(r) /\ d = <<>>
\* ---- matching
NoMask == [m1 |-> 0, m2 |-> 0, m3 |-> 0, et |-> Blanks]        \* bits and characters to be ignored
Key(e) == [dv |-> e.dv, et |-> Pad(e.et, 12), ip1 |-> e.ip1, ip2 |-> e.ip2, ip3 |-> e.ip3, tv |-> Pad(e.tv, 2), nv |-> Pad(e.nv, 4)]
IpEq(a, b, ign) == b = -1 \/ IF ign = 0 THEN a = b ELSE (a & (Full - ign)) = (b & (Full - ign))
EtEq(a, b, ign) == IF Blank(SubSeq(b, 1, 10)) THEN TRUE ELSE IF ign = Blanks THEN a = b ELSE \A i \in 1..12 : SubSeq(ign, i, i) = "*" \/ SubSeq(a, i, i) = SubSeq(b, i, i)
Match(r, q, m) == /\ q.dv = -1 \/ r.dv = q.dv
                  /\ IpEq(r.ip3, q.ip3, m.m3) /\ IpEq(r.ip1, q.ip1, m.m1) /\ IpEq(r.ip2, q.ip2, m.m2)
                  /\ Blank(q.nv) \/ r.nv = q.nv
                  /\ Blank(q.tv) \/ r.tv = q.tv
                  /\ EtEq(r.et, q.et, m.et)
\* ---- the entries a unit sees: its own, then those of the units linked after it
RECURSIVE Chain(_)
Chain(u) == IF op[u].lk = 0 THEN <<u>> ELSE <<u>> \o Chain(op[u].lk)
Pages(n) == IF n = 0 THEN 1 ELSE (n - 1) \div PageN + 1
RECURSIVE PageBase(_, _)
PageBase(c, i) == IF i = 1 THEN 0 ELSE PageBase(c, i - 1) + Pages(Len(op[c[i - 1]].dir))
\* first entry from <<i, j>> on that is wanted; <<0, 0>> when there is none
FindIn(d, j, q, m) == LET M(i) == d[i].live /\ Match(d[i].r, q, m) IN
   IF \E i \in j..Len(d) : M(i) THEN CHOOSE i \in j..Len(d) : M(i) /\ \A x \in j..(i - 1) : ~M(x) ELSE 0
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(c, i, j, q, m) == IF i > Len(c) THEN <<0, 0>> ELSE LET x == FindIn(op[c[i]].dir, j, q, m) IN IF x > 0 THEN <<i, x>> ELSE FindFrom(c, i + 1, 1, q, m)
\* handles: file number, page, record in the page
Handle(u, p) == LET c == Chain(u) IN <<op[u].fi, PageBase(c, p[1]) + (p[2] - 1) \div PageN, (p[2] - 1) % PageN>>
RECURSIVE Place(_, _, _, _)
Place(c, i, page, rec) == IF i > Len(c) THEN <<0, 0>> ELSE LET n == Len(op[c[i]].dir) IN
   IF page >= Pages(n) THEN Place(c, i + 1, page - Pages(n), rec)
   ELSE LET j == page * PageN + rec + 1 IN IF rec < PageN /\ j <= n THEN <<i, j>> ELSE <<0, 0>>
Owner(h) == {u \in DOMAIN op : op[u].fi = h[1]}
IsOwner(h) == Owner(h) /= {}
The(h) == CHOOSE u \in Owner(h) : TRUE
At(h) == Place(Chain(The(h)), 1, h[2], h[3])                   \* <<0, 0>>: no such record
UnitOf(h) == Chain(The(h))[At(h)[1]]
Entry(h) == op[UnitOf(h)].dir[At(h)[2]]
Valid(h) == IsOwner(h) /\ At(h)[1] > 0
LiveN(d) == Cardinality({i \in DOMAIN d : d[i].live})
\* ---- searches: position as in the code, or "lost" after a write to the unit
SearchFrom(u, i, j, qq, mm, ret, h) == \E q \in {qq} : \E m \in {mm} : \E p \in {FindFrom(Chain(u), i, j, q, m)} :
  IF p[1] = 0 THEN ret = -1 /\ op' = [op EXCEPT ![u].q = q, ![u].qm = m, ![u].cur = [st |-> "end", p |-> <<0, 0>>]]
  ELSE ret = 1 /\ h = Handle(u, p) /\ op' = [op EXCEPT ![u].q = q, ![u].qm = m, ![u].cur = [st |-> "at", p |-> <<p[1], p[2] + 1>>]]
Dims(h, e) == LET r == Entry(h).r IN e.ni = r.ni /\ e.nj = r.nj /\ e.nk = r.nk
\* a found record has the dimensions that were returned with it
Found(e) == e.ret = 1 => Dims(e.h, e)
Inf(u, e) == /\ UNCHANGED fs
             /\ IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED op ELSE SearchFrom(u, 1, 1, Key(e), op[u].m, e.ret, e.h) /\ Found(e)
Infx(u, e) ==
  /\ UNCHANGED fs
  /\ IF u \notin DOMAIN op \/ e.at = "bad" THEN e.ret = -1 /\ UNCHANGED op
     ELSE IF e.at = "bof" THEN SearchFrom(u, 1, 1, Key(e), op[u].m, e.ret, e.h) /\ Found(e)
     ELSE IF e.at = "h" THEN
       IF e.from[1] /= op[u].fi THEN e.ret = -1 /\ UNCHANGED op
       ELSE LET p == Place(Chain(u), 1, e.from[2], e.from[3]) IN
         IF p[1] > 0 THEN SearchFrom(u, p[1], p[2] + 1, Key(e), op[u].m, e.ret, e.h) /\ Found(e)
         ELSE \* a handle that never was one of this collection: refused or nothing found
              e.ret = -1 /\ op' = [op EXCEPT ![u].cur = [st |-> "lost", p |-> <<0, 0>>]]
     ELSE IF op[u].cur.st = "at" THEN SearchFrom(u, op[u].cur.p[1], op[u].cur.p[2], Key(e), op[u].m, e.ret, e.h) /\ Found(e)
     ELSE IF op[u].cur.st = "lost" THEN
       IF e.ret = 1 THEN /\ e.h[1] = op[u].fi /\ Valid(e.h) /\ Entry(e.h).live /\ Match(Entry(e.h).r, Key(e), op[u].m) /\ Dims(e.h, e)
                         /\ op' = [op EXCEPT ![u].q = Key(e), ![u].qm = op[u].m, ![u].cur = [st |-> "at", p |-> <<At(e.h)[1], At(e.h)[2] + 1>>]]
       ELSE e.ret = -1 /\ UNCHANGED op
     ELSE e.ret = -1 /\ UNCHANGED op
Sui(u, e) ==
  /\ UNCHANGED fs
  /\ IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED op
     ELSE IF op[u].cur.st = "at" THEN SearchFrom(u, op[u].cur.p[1], op[u].cur.p[2], op[u].q, op[u].qm, e.ret, e.h) /\ Found(e)
     ELSE IF op[u].cur.st = "lost" /\ e.ret = 1 THEN   \* after a write the position may be kept or not
       /\ e.h[1] = op[u].fi /\ Valid(e.h) /\ Entry(e.h).live /\ Dims(e.h, e)
       /\ op' = [op EXCEPT ![u].cur = [st |-> "lost", p |-> <<0, 0>>]]
     ELSE e.ret = -1 /\ UNCHANGED op
Wanted(d, q, m) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i].live /\ Match(d[i].r, q, m))
RECURSIVE AllFrom(_, _, _, _)
AllFrom(c, i, q, m) == IF i > Len(c) THEN <<>> ELSE LET w == Wanted(op[c[i]].dir, q, m) IN [x \in 1..Len(w) |-> <<i, w[x]>>] \o AllFrom(c, i + 1, q, m)
Inl(u, e) ==
  /\ UNCHANGED fs
  /\ IF u \notin DOMAIN op THEN e.ret <= 0 /\ e.infon = 0 /\ UNCHANGED op
     ELSE \E q \in {Key(e)} : \E c \in {Chain(u)} : \E all \in {AllFrom(c, 1, q, op[u].m)} : LET n == Len(all) k == IF n < e.max THEN n ELSE e.max
              r(i) == op[c[all[i][1]]].dir[all[i][2]].r IN
       /\ e.infon = k /\ e.ret = (IF n > e.max THEN -n ELSE 0)
       /\ e.l = [i \in 1..k |-> Handle(u, all[i])]
       /\ k > 0 => \E i \in 1..k : /\ e.ni = r(i).ni /\ e.nj = r(i).nj /\ e.nk = r(i).nk
                                   /\ \A j \in 1..k : N(r(j)) <= N(r(i))
       /\ op' = [op EXCEPT ![u].q = q, ![u].qm = op[u].m, ![u].cur = [st |-> "end", p |-> <<0, 0>>]]
\* ---- reading
ReadOk(e) == e.ret = 1 => (Entry(e.h).un \/ (Dims(e.h, e) /\ DataIs(Entry(e.h).r, e.w, e.d))) /\ e.rest
Lir(u, e) == Inf(u, e) /\ ReadOk(e)
Lirx(u, e) == Infx(u, [e EXCEPT !.op = "lirx"]) /\ ReadOk(e)
Lis(u, e) == Sui(u, e) /\ ReadOk(e)
Luk(e) == /\ UNCHANGED vars
          /\ IF Valid(e.g) THEN (IF Entry(e.g).live THEN e.ret = 1 /\ e.h = e.g /\ ReadOk(e) ELSE e.ret = -1) ELSE e.ret = -1
PrmIs(e, r) == /\ e.dv = r.dv /\ e.deet = r.deet /\ e.npas = r.npas /\ e.ni = r.ni /\ e.nj = r.nj /\ e.nk = r.nk /\ e.nbits = r.nbits /\ e.dt = r.dt
               /\ e.ip1 = r.ip1 /\ e.ip2 = r.ip2 /\ e.ip3 = r.ip3 /\ e.tv = r.tv /\ e.nv = r.nv /\ e.et = r.et /\ e.gt = r.gt
               /\ e.ig1 = r.ig1 /\ e.ig2 = r.ig2 /\ e.ig3 = r.ig3 /\ e.ig4 = r.ig4
               /\ (r.deet * r.npas) % 3600 = 0 => e.date = r.dv - (r.deet * r.npas) \div 3600
Prm(e) == /\ UNCHANGED vars
          /\ IF Valid(e.g) THEN (IF Entry(e.g).live THEN e.ret = 0 /\ ~e.dltf /\ PrmIs(e, Entry(e.g).r) ELSE TRUE) ELSE e.ret = -1
\* ---- writing
InRange(e) == /\ e.ni \in 1..16777215 /\ e.nj \in 1..16777215 /\ e.nk <= 1048575
              /\ e.deet \in 0..16777215 /\ e.npas \in 0..16777215 /\ Kept(e.npak, e.dt)[1] \in 1..64
              /\ e.ig1 \in 0..16777215 /\ e.ig2 \in 0..16777215 /\ e.ig3 \in 0..16777215 /\ e.ig4 \in 0..16777215
              /\ e.ip1 \in 0..Full /\ e.ip2 \in 0..Full /\ e.ip3 \in 0..Full
Rec(e) == [dv |-> e.dv, deet |-> e.deet, npas |-> e.npas, ni |-> e.ni, nj |-> e.nj, nk |-> Max(1, e.nk), nbits |-> Kept(e.npak, e.dt)[1], dt |-> Kept(e.npak, e.dt)[2],
           ip1 |-> e.ip1, ip2 |-> e.ip2, ip3 |-> e.ip3, tv |-> Pad(e.tv, 2), nv |-> Pad(e.nv, 4), et |-> Pad(e.et, 12), gt |-> SubSeq(e.gt \o " ", 1, 1),
           ig1 |-> e.ig1, ig2 |-> e.ig2, ig3 |-> e.ig3, ig4 |-> e.ig4, k |-> e.k]
Ent(r) == [live |-> TRUE, r |-> r, un |-> FALSE]
Kill(d, i) == [d EXCEPT ![i].live = FALSE]
Lost(o) == [o EXCEPT !.cur = [st |-> "lost", p |-> <<0, 0>>]]
RewKey(r) == [dv |-> -1, et |-> r.et, ip1 |-> r.ip1, ip2 |-> r.ip2, ip3 |-> r.ip3, tv |-> r.tv, nv |-> r.nv]
\* the entry a rewriting replaces: the first one of the file itself that has these keys
Old(u, r, rew) == IF rew THEN FindIn(op[u].dir, 1, RewKey(r), op[u].m) ELSE 0
InPlace(u, r, rew) == LET i == Old(u, r, rew) IN i > 0 /\ SameLength(op[u].dir[i].r, r)
BlurIn(g, f, i) == IF i <= Len(g[f].dir) THEN [g EXCEPT ![f].dir[i].un = TRUE] ELSE g
Blur(f, i) == BlurIn(fs, f, i)
Grown(f) == [fs EXCEPT ![f].gr = TRUE]
Ecr(u, e) ==
  IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF op[u].ro \/ ~InRange(e) THEN e.ret = -1 /\ UNCHANGED fs /\ (UNCHANGED op \/ op' = [op EXCEPT ![u] = Lost(@)])
  ELSE \E r \in {Rec(e)} : \E i \in {Old(u, r, e.rew)} :
    /\ e.ret = 0
    /\ IF InPlace(u, r, e.rew) THEN op' = [op EXCEPT ![u] = [Lost(@) EXCEPT !.dir[i] = Ent(r)]] /\ fs' = Blur(op[u].f, i)
       ELSE op' = [op EXCEPT ![u] = [Lost(@) EXCEPT !.dir = Append(IF i > 0 THEN Kill(@, i) ELSE @, Ent(r))]] /\ fs' = Grown(op[u].f)
Writable(h) == ~op[UnitOf(h)].ro
Eff(e) ==
  IF ~Valid(e.g) THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF ~Entry(e.g).live \/ ~Writable(e.g) THEN e.ret = -1 /\ UNCHANGED vars
  ELSE e.ret = 0 /\ UNCHANGED fs /\ op' = [op EXCEPT ![UnitOf(e.g)].dir = Kill(@, At(e.g)[2])]
Upd(a, b) == IF b = -1 THEN a ELSE b
UpdS(a, s, n) == IF Blank(Pad(s, n)) THEN a ELSE Pad(s, n)
Edited(r, e) == [r EXCEPT !.dv = Upd(@, e.dv), !.deet = Upd(@, e.deet), !.npas = Upd(@, e.npas), !.ip1 = Upd(@, e.ip1), !.ip2 = Upd(@, e.ip2), !.ip3 = Upd(@, e.ip3),
                          !.tv = UpdS(@, e.tv, 2), !.nv = UpdS(@, e.nv, 4), !.et = UpdS(@, e.et, 12), !.ig1 = Upd(@, e.ig1), !.ig2 = Upd(@, e.ig2), !.ig3 = Upd(@, e.ig3), !.ig4 = Upd(@, e.ig4)]
\* directory editing: on records of the unit's own file
Edit(e) ==
  /\ UNCHANGED fs
  /\ IF ~Valid(e.g) THEN e.ret = -1 /\ UNCHANGED op
     ELSE IF At(e.g)[1] > 1 \/ ~Writable(e.g) THEN e.ret = -1 /\ UNCHANGED op
     ELSE IF ~Entry(e.g).live THEN UNCHANGED op
     ELSE e.ret = 0 /\ op' = [op EXCEPT ![UnitOf(e.g)].dir[At(e.g)[2]].r = Edited(@, e)]
Nbr(u, e) == UNCHANGED vars /\ u \in DOMAIN op /\ e.nbr = op[u].n0 /\ e.nbrv = LiveN(op[u].dir)
MaskCh(s) == s
Msq(u, e) ==
  /\ UNCHANGED fs
  /\ IF u \notin DOMAIN op THEN e.ret = -1 /\ UNCHANGED op
     ELSE IF e.get THEN e.ret = 0 /\ UNCHANGED op /\ e.m1 = op[u].m.m1 /\ e.m2 = op[u].m.m2 /\ e.m3 = op[u].m.m3 /\ \A i \in 1..12 : (SubSeq(e.et, i, i) = "*") = (SubSeq(op[u].m.et, i, i) = "*")
     ELSE e.ret = 0 /\ op' = [op EXCEPT ![u].m = [m1 |-> e.m1, m2 |-> e.m2, m3 |-> e.m3, et |-> e.et]]
\* ---- opening, closing, checkpoints
Session(f, ro, d, fi) == [f |-> f, ro |-> ro, dir |-> d, n0 |-> Len(d), m |-> NoMask, q |-> [dv |-> -1, et |-> Blanks, ip1 |-> -1, ip2 |-> -1, ip3 |-> -1, tv |-> "  ", nv |-> "    "], qm |-> NoMask, cur |-> [st |-> "none", p |-> <<0, 0>>], lk |-> 0, fi |-> fi]
\* may the file be opened as it is on disk?  "odd": it may or not
Refused(f, ro) == fs[f].st = "fresh" \/ (fs[f].wr /\ ~ro)
Open(u, e) ==
  LET f == e.f ro == e.ro > 0 IN
  IF u \in DOMAIN op THEN e.ret = -1 /\ UNCHANGED vars
  ELSE IF f \notin DOMAIN fs THEN
    IF ro THEN e.ret = -1 /\ UNCHANGED vars
    ELSE e.ret = 0 /\ op' = Put(op, u, Session(f, FALSE, <<>>, e.fi)) /\ fs' = Put(fs, f, [dir |-> <<>>, wr |-> FALSE, st |-> "fresh", gr |-> FALSE, tl |-> FALSE])
  ELSE IF fs[f].st = "odd" THEN e.ret = -1 /\ UNCHANGED vars       \* never opened again by the drivers of this specification
  ELSE IF Refused(f, ro) THEN e.ret = -1 /\ UNCHANGED vars
  ELSE /\ e.ret = Len(fs[f].dir) /\ \A v \in DOMAIN op : op[v].fi /= e.fi
       /\ op' = Put(op, u, Session(f, ro, fs[f].dir, e.fi)) /\ UNCHANGED fs
Synced(u, wr) == IF op[u].ro THEN fs ELSE [fs EXCEPT ![op[u].f] = [dir |-> op[u].dir, wr |-> wr, st |-> "ok", gr |-> fs[op[u].f].tl, tl |-> fs[op[u].f].tl]]
Close(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars ELSE ret = 0 /\ fs' = Synced(u, FALSE) /\ op' = Del(op, u)
Ckp(u, ret) == IF u \notin DOMAIN op THEN ret = -1 /\ UNCHANGED vars ELSE ret = 0 /\ fs' = Synced(u, TRUE) /\ UNCHANGED op
\* ---- linked units
Link(l, ret) == /\ ret = 0 /\ UNCHANGED fs
                /\ op' = [v \in DOMAIN op |-> IF \E i \in 1..(Len(l) - 1) : l[i] = v THEN [Lost(op[v]) EXCEPT !.lk = l[(CHOOSE i \in 1..(Len(l) - 1) : l[i] = v) + 1]] ELSE op[v]]
Unlink(l, ret) == /\ ret = 0 /\ UNCHANGED fs
                  /\ op' = [v \in DOMAIN op |-> IF \E i \in DOMAIN l : l[i] = v THEN [Lost(op[v]) EXCEPT !.lk = 0] ELSE op[v]]
\* ---- death of the process: the files stay as they were at the last checkpoint or close
\* p: the call in progress (none: [what |-> "none"])
Appending(p, f) == p.what = "ecr" /\ p.u \in DOMAIN op /\ op[p.u].f = f
Tails(p) == [f \in DOMAIN fs |-> IF fs[f].gr \/ Appending(p, f) THEN [fs[f] EXCEPT !.gr = TRUE, !.tl = TRUE] ELSE fs[f]]
Crash(p) ==
  /\ op' = <<>>
  /\ \E g \in {Tails(p)} :
     IF p.what \in {"close", "ckp", "open"} /\ p.u \in DOMAIN op THEN fs' = IF op[p.u].ro THEN g ELSE [g EXCEPT ![op[p.u].f].st = "odd"]
     ELSE IF p.what = "open" THEN fs' = IF p.f \in DOMAIN fs THEN g ELSE Put(g, p.f, [dir |-> <<>>, wr |-> FALSE, st |-> "odd", gr |-> FALSE, tl |-> FALSE])
     ELSE IF p.what = "ecr" THEN
       IF p.u \notin DOMAIN op THEN fs' = g ELSE IF op[p.u].ro \/ ~InRange(p) THEN fs' = g ELSE IF InPlace(p.u, Rec(p), p.rew) THEN fs' = BlurIn(g, op[p.u].f, Old(p.u, Rec(p), p.rew)) ELSE fs' = g
     ELSE fs' = g
Remove(f) == fs' = Del(fs, f) /\ UNCHANGED op
\* ---- another process looks at a file: it sees the last checkpoint or close
Lives(d) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : d[i].live)
Peek(e) ==
  /\ UNCHANGED op
  /\ IF e.f \notin DOMAIN fs /\ ~e.ro THEN e.chk = -1 /\ e.ret = 0 /\ e.nbrv = 0 /\ e.recs = <<>> /\ e.cls = 0 /\ fs' = Put(fs, e.f, [dir |-> <<>>, wr |-> FALSE, st |-> "ok", gr |-> FALSE, tl |-> FALSE]) ELSE
     UNCHANGED fs /\
     IF e.f \notin DOMAIN fs THEN e.ret = -1
     ELSE IF fs[e.f].st = "odd" THEN TRUE
     ELSE IF Refused(e.f, e.ro) THEN e.ret = -1
     ELSE LET d == fs[e.f].dir s == Lives(d) IN
       /\ e.ret = Len(d) /\ e.nbrv = Len(s) /\ (fs[e.f].gr \/ e.chk = 0) /\ e.cls = 0
       /\ Len(e.recs) = Len(s)
       /\ \A i \in DOMAIN s : LET x == e.recs[i] r == d[s[i]].r IN
            /\ x.h[2] = (s[i] - 1) \div PageN /\ x.h[3] = (s[i] - 1) % PageN /\ x.ret = 0 /\ PrmIs(x, r)
            /\ d[s[i]].un \/ (DataIs(r, x.data.w, x.data.d) /\ x.data.rest)
Init0 == fs = <<>> /\ op = <<>>
=============================================================================
