------------------------------- MODULE Burp -------------------------------
(* BURP reports (src/fstd98/burp98.c, c_burp.c, src/burp98_f): reports built in bounded buffers as a header and a
   sequence of blocks, and files of reports searched by header. A block holds nele elements x nval values x nt groups;
   its values are words <<hi, lo>>; the word of ones is the missing value.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES b,     \* buffers: number -> [cap (bits), h, bl]
          recs,  \* the file: sequence of [live, h, bl]; handle k is record k
          long   \* the longest report ever written to the file, in words
bv == <<b, recs, long>>
NoDate == 0
Keep == UNCHANGED bv
CeilDiv(n, m) == (n + m - 1) \div m
Big(x) == x.nele >= 127 \/ x.nval >= 256 \/ x.nt >= 256
Number(x) == x.nele * x.nval * x.nt
Listed(nele, big) == IF big THEN nele ELSE IF nele > 3 THEN nele - 3 ELSE 0
UList(x) == CeilDiv(Listed(x.nele, Big(x)) * 16, 64)             \* units of 64 bits
UVals(x) == CeilDiv(Number(x) * x.nb, 64)
UData(x) == UList(x) + UVals(x)
Bits(bl) == LET S[i \in 0..Len(bl)] == IF i = 0 THEN 320 ELSE S[i - 1] + 128 + 64 * UData(bl[i]) IN S[Len(bl)]
Bit0(bl, i) == LET S[k \in 0..Len(bl)] == IF k = 0 THEN 0 ELSE S[k - 1] + UData(bl[k]) IN S[i - 1]
Family(fam, desc) == IF desc # 0 THEN (fam % 64) + 64 * desc ELSE fam
FamOK(fam, desc) == desc = 0 \/ fam \div 64 = 0 \/ fam \div 64 = desc
Missing == <<65535, 65535>>
Neg(w) == w[1] >= 32768
NewB(k, x) == b' = [j \in DOMAIN b \cup {k} |-> IF j = k THEN x ELSE b[j]]
Drop(k) == b' = [j \in DOMAIN b \ {k} |-> b[j]]
Up(c) == IF (c \div 64) % 2 = 1 /\ (c \div 32) % 2 = 1 THEN c - 32 ELSE c
WB(w, k) == CASE k = 1 -> w[1] \div 256 [] k = 2 -> w[1] % 256 [] k = 3 -> w[2] \div 256 [] k = 4 -> w[2] % 256
Bytes(d, n) == [i \in 1..n |-> WB(d[(i - 1) \div 4 + 1], ((i - 1) % 4) + 1)]
(* the content given to a block: words, or characters *)
Content(t, d, n) == IF t \in {3, 5} THEN LET x == Bytes(d, n) IN IF t = 5 THEN [i \in 1..n |-> Up(x[i])] ELSE x ELSE d
Shows(x, d) == LET n == Number(x) IN IF x.t \in {3, 5} THEN Bytes(d, n) = x.d ELSE d = x.d
Code204 == 55 * 256 + 204   Code205 == 55 * 256 + 205   Code206 == 55 * 256 + 206   Code207 == 55 * 256 + 207
Codes(t, i) == CASE t = 7 -> IF i % 2 = 0 THEN {0, Code204} ELSE 0..65535
                 [] t = 8 -> IF i % 2 = 0 THEN {0, Code205} ELSE 0..65535
                 [] t = 9 -> (CASE i % 4 = 1 -> 0..65535 [] i % 4 = 2 -> {0, Code204} [] i % 4 = 3 -> {0, Code206} [] i % 4 = 0 -> {0, Code207})
                 [] OTHER -> 0..65535
Filled(t, i, e) == IF e # 0 THEN e ELSE CASE t = 7 /\ i % 2 = 0 -> Code204 [] t = 8 /\ i % 2 = 0 -> Code205
                 [] t = 9 /\ i % 4 = 2 -> Code204 [] t = 9 /\ i % 4 = 3 -> Code206 [] t = 9 /\ i % 4 = 0 -> Code207 [] OTHER -> e
ElsOK(t, els) == (t \in {7, 8} => Len(els) % 2 = 0) /\ (t = 9 => Len(els) % 4 = 0) /\ \A i \in 1..Len(els) : els[i] \in Codes(t, i)
(* what a block may be kept as: never fewer bits than asked, with its type, or signed when there are negative values *)
HasNeg(d) == \E i \in 1..Len(d) : Neg(d[i]) /\ d[i] # Missing
Wide(d) == \E i \in 1..Len(d) : d[i] # Missing /\ (d[i][1] \in 16383..49152)   \* about 2^30: needs 32 bits with a sign
KeptAs(t, nb, d, t2, nb2) ==
  CASE t \in {3, 5} -> t2 = t /\ nb2 = 8
    [] t \in {6, 7, 8, 9} -> t2 = t /\ nb2 = 32
    [] t = 0 -> t2 = 0 /\ nb2 = nb
    [] OTHER -> nb2 >= nb /\ nb2 <= 32 /\ (t2 = t \/ (HasNeg(d) /\ t2 = 4))
Block(nele, nval, nt, fam, typ, t, nb, els, d) == [nele |-> nele, nval |-> nval, nt |-> nt, fam |-> fam, typ |-> typ, t |-> t, nb |-> nb,
    els |-> els, d |-> Content(t, d, nele * nval * nt)]
(* --- headers: [temps, flgs, stn (9 bytes), idtyp, lat, lon, dx, dy, elev, drcv, date, oars, run] --------------- *)
Date6(x) == IF x > 19991231 THEN x ELSE IF x > 999999 THEN x - 19000000 ELSE x    \* years 1900 to 1999 are shown with two digits
Shown(h) == [h EXCEPT !.stn = [i \in 1..9 |-> Up(@[i])], !.date = Date6(@)]
IniHdr(h) == [Shown(h) EXCEPT !.temps = IF @ = -1 THEN 0 ELSE @]
Upd_(old, v) == IF v = -1 THEN old ELSE v
UpdHdr(h, u) == [temps |-> Upd_(h.temps, u.temps), flgs |-> Upd_(h.flgs, u.flgs), stn |-> [i \in 1..9 |-> IF u.stn[i] = 42 THEN h.stn[i] ELSE Up(u.stn[i])],
   idtyp |-> Upd_(h.idtyp, u.idtyp), lat |-> Upd_(h.lat, u.lat), lon |-> Upd_(h.lon, u.lon), dx |-> Upd_(h.dx, u.dx), dy |-> Upd_(h.dy, u.dy),
   elev |-> Upd_(h.elev, u.elev), drcv |-> Upd_(h.drcv, u.drcv), date |-> IF u.date = -1 THEN h.date ELSE Date6(u.date), oars |-> Upd_(h.oars, u.oars), run |-> Upd_(h.run, u.run)]
Ini(k, cap, h, rc) == rc = 0 /\ NewB(k, [cap |-> cap, h |-> IniHdr(h), bl |-> <<>>]) /\ UNCHANGED <<recs, long>>
Upd(k, u, rc) == rc = 0 /\ NewB(k, [b[k] EXCEPT !.h = UpdHdr(@, u)]) /\ UNCHANGED <<recs, long>>
Hdr(k, h, nblk) == Keep /\ h = b[k].h /\ nblk = Len(b[k].bl)
Lengths(k, used, left) == Keep /\ used = Bits(b[k].bl) /\ left = b[k].cap - used
(* --- blocks ---------------------------------------------------------------------------------------------------- *)
Add(k, x, els, d, rc, bkno, bit0, t2, nb2) ==
  LET nb0 == Block(x.nele, x.nval, x.nt, Family(x.fam, x.desc), x.typ, t2, nb2, [i \in 1..x.nele |-> Filled(x.t, i, els[i])], d)
      asked == Block(x.nele, x.nval, x.nt, Family(x.fam, x.desc), x.typ, x.t, IF x.t \in 6..9 THEN 32 ELSE x.nb, els, d) IN
  IF (x.t \in {3, 5} /\ x.nb # 8) \/ ~ElsOK(x.t, els) \/ ~FamOK(x.fam, x.desc) \/ Bits(Append(b[k].bl, asked)) > b[k].cap
  THEN rc < 0 /\ Keep
  ELSE IF rc = 0
  THEN /\ bkno = Len(b[k].bl) + 1 /\ bit0 = Bit0(Append(b[k].bl, nb0), bkno)
       /\ KeptAs(x.t, x.nb, d, t2, nb2) /\ Bits(Append(b[k].bl, nb0)) <= b[k].cap
       /\ NewB(k, [b[k] EXCEPT !.bl = Append(@, nb0)]) /\ UNCHANGED <<recs, long>>
  ELSE \* refused: there may not be room for the bits that the values need, or no type for them
       Keep /\ x.t \in {2, 4} /\ (Wide(d) \/ Bits(Append(b[k].bl, [asked EXCEPT !.nb = 32])) > b[k].cap)
Del(k, n, rc) ==
  IF n \notin 1..Len(b[k].bl) THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ NewB(k, [b[k] EXCEPT !.bl = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]) /\ UNCHANGED <<recs, long>>
Rep(k, n, d, rc, t2, nb2) ==
  IF n \notin 1..Len(b[k].bl) THEN rc < 0 /\ Keep
  ELSE LET x == b[k].bl[n] y == [x EXCEPT !.t = t2, !.nb = nb2, !.d = Content(x.t, d, Number(x))] z == [b[k].bl EXCEPT ![n] = y] IN
       IF rc = 0 THEN KeptAs(x.t, x.nb, d, t2, nb2) /\ Bits(z) <= b[k].cap /\ NewB(k, [b[k] EXCEPT !.bl = z]) /\ UNCHANGED <<recs, long>>
       ELSE Keep /\ x.t \in {2, 4} /\ (Wide(d) \/ Bits([b[k].bl EXCEPT ![n] = [x EXCEPT !.nb = 32]]) > b[k].cap)
(* extraction, with the parameters of the block *)
Xtr(k, n, rc, p, els, d) ==
  /\ Keep
  /\ IF n \notin 1..Len(b[k].bl) THEN rc < 0
     ELSE LET x == b[k].bl[n] IN
          /\ rc = 0 /\ els = x.els /\ Shows(x, d)
          /\ p.nele = x.nele /\ p.nval = x.nval /\ p.nt = x.nt /\ p.fam = x.fam /\ p.desc = 0 /\ p.typ = x.typ /\ p.nb = x.nb /\ p.t = x.t
          /\ p.bit0 = Bit0(b[k].bl, n)
(* one row for each block after bk0: number, nele, nval, nt, fam, 0, typ, nb, bit0, t *)
Row(bl, n) == LET x == bl[n] IN <<n, x.nele, x.nval, x.nt, x.fam, 0, x.typ, x.nb, Bit0(bl, n), x.t>>
Prml(k, bk0, cnt, rc, rows) ==
  LET left == IF Len(b[k].bl) > bk0 THEN Len(b[k].bl) - bk0 ELSE 0 m == IF cnt < left THEN cnt ELSE left IN
  Keep /\ rc = m /\ rows = [i \in 1..m |-> Row(b[k].bl, bk0 + i)]
(* criteria of a search: -1 anything; of the type, the parts nat (4 bits) ktyp (7 bits) stp (4 bits) can be left out *)
TypMatch(c, typ) == c.any \/ /\ c.nat = -1 \/ (typ \div 2048) % 16 = c.nat
                             /\ c.ktyp = -1 \/ (typ \div 16) % 128 = c.ktyp
                             /\ c.stp = -1 \/ typ % 16 = c.stp
Loc(k, fam, desc, c, from, rc) ==
  /\ Keep
  /\ IF fam = -1 /\ desc > 0 THEN rc < 0
     ELSE IF fam # -1 /\ desc > 0 /\ ~FamOK(fam, desc) THEN rc < 0
     ELSE LET F == IF fam = -1 THEN -1 ELSE IF desc > 0 THEN Family(fam, desc) ELSE fam
              S == {i \in 1..Len(b[k].bl) : i > from /\ (F = -1 \/ b[k].bl[i].fam = F) /\ TypMatch(c, b[k].bl[i].typ)} IN
          IF S = {} THEN rc < 0 ELSE rc \in S /\ \A i \in S : rc <= i
(* --- files ----------------------------------------------------------------------------------------------------- *)
Live == {i \in 1..Len(recs) : recs[i].live}
Words(bl) == Bits(bl) \div 32
PutNew(k, rc) == rc = 0 /\ recs' = Append(recs, [live |-> TRUE, h |-> b[k].h, bl |-> b[k].bl]) /\ long' = (IF Words(b[k].bl) > long THEN Words(b[k].bl) ELSE long) /\ UNCHANGED b
Put(k, h, rc) ==
  IF h = 0 THEN PutNew(k, rc)
  ELSE IF h \notin Live THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ recs' = Append([recs EXCEPT ![h] = [@ EXCEPT !.live = FALSE]], [live |-> TRUE, h |-> b[k].h, bl |-> b[k].bl])
       /\ long' = (IF Words(b[k].bl) > long THEN Words(b[k].bl) ELSE long) /\ UNCHANGED b
(* cap = -1: a buffer of the length that mrfbfl gave, which holds any report of the file *)
Get(k, cap, h, rc, atcap) ==
  IF h \notin Live \/ (cap # -1 /\ Bits(recs[h].bl) > cap) THEN rc < 0 /\ Drop(k) /\ UNCHANGED <<recs, long>>
  ELSE rc = 0 /\ atcap >= Bits(recs[h].bl) /\ NewB(k, [cap |-> atcap, h |-> recs[h].h, bl |-> recs[h].bl]) /\ UNCHANGED <<recs, long>>
DelRec(h, rc) == IF h \in Live THEN rc = 0 /\ recs' = [recs EXCEPT ![h] = [@ EXCEPT !.live = FALSE]] /\ UNCHANGED <<b, long>> ELSE rc < 0 /\ Keep
Crit(r, c) == /\ \A i \in 1..9 : c.stn[i] = 42 \/ Up(c.stn[i]) = r.h.stn[i]
              /\ c.idtyp = -1 \/ c.idtyp = r.h.idtyp
              /\ c.lat = -1 \/ c.lat = r.h.lat
              /\ c.lon = -1 \/ c.lon = r.h.lon
              /\ c.date = -1 \/ Date6(c.date) = r.h.date
              /\ c.temps = -1 \/ c.temps \div 100 = r.h.temps \div 100
FLoc(from, c, found) == LET S == {i \in Live : i > from /\ Crit(recs[i], c)} IN
  Keep /\ IF S = {} THEN found = 0 ELSE found \in S /\ \A i \in S : found <= i
Prm(h, rc, p, lng) == /\ Keep
  /\ IF h \notin 1..Len(recs) THEN rc < 0
     ELSE recs[h].live => LET r == recs[h].h IN
       rc = 0 /\ lng = Words(recs[h].bl) /\ p = [r EXCEPT !.elev = 0, !.drcv = 0, !.oars = 0, !.run = 0]
Counts(nbr, mxl) == Keep /\ nbr = Cardinality(Live) /\ mxl <= long /\ \A i \in Live : mxl >= Words(recs[i].bl)
Reopen(rc) == rc = Cardinality(Live) /\ Keep
(* --- names of elements ------------------------------------------------------------------------------------------ *)
Coded(e) == (e % 1000) + 256 * ((e \div 1000) % 100) + 16384 * (e \div 100000)
Names(e, c, back, l, lback) == Keep /\ Len(l) = Len(e) /\ \A i \in 1..Len(e) : c[i] = Coded(e[i]) /\ back[i] = e[i] /\ l[i] = c[i] /\ lback[i] = e[i]
BTyp(nat, kt, st, typ, n2, k2, s2) == Keep /\ typ = 2048 * nat + 16 * kt + st /\ n2 = nat /\ k2 = kt /\ s2 = st
BInit == b = <<>> /\ recs = <<>> /\ long = 0
=============================================================================
