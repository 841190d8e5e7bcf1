------------------------------- MODULE Xdf -------------------------------
(* XDF record buffers and generic XDF files (src/fstd98/xdf98.c).
   A buffer is a bounded sequence of bits edited by 64-bit units: bits are 0, 1 or 2 (not specified: what
   a packed store leaves after its last element, up to the next multiple of 64).
   A file is a sequence of records (keys, information keys, data) behind key definitions.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES f,    \* the file: open, defs (primary), adefs (information), recs; recs[k] = [live, typ, prim, info, data]
          b,    \* buffers: function of small numbers; [cap, pre, kp, ka, typ, c]
          pos   \* position of the last successful search (0: none), and the last criteria
xv == <<f, b, pos>>
NoFile == [open |-> FALSE, defs |-> <<>>, adefs |-> <<>>, recs |-> <<>>, lp |-> 0, la |-> 0]
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
WBit(w, k) == IF k <= 16 THEN (w[1] \div P2[17 - k]) % 2 ELSE (w[2] \div P2[33 - k]) % 2   \* bit k (1: leftmost) of a word [hi, lo]
Units(n, nb) == 64 * ((n * nb + 63) \div 64)
UpByte(w, k) == LET k0 == 8 * ((k - 1) \div 8) IN   \* bit k of the word with its letters in upper case (xdf98.h upper_case_word)
   IF k - k0 = 3 /\ WBit(w, k0 + 2) = 1 THEN 0 ELSE WBit(w, k)
Swap(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
TypeOK(t, nb) == t \in {0, 3, 5, 6, 8, 7, 9, 2, 4} /\ (t \in {3, 5} => nb = 8)
BadType(t, nb) == t \in {3, 5} /\ nb # 8
(* the bits that n elements of nb bits become in the buffer, given the caller's array of words d *)
Encode(t, d, n, nb) ==
  LET u == Units(n, nb) IN
  CASE t \in {0, 3, 6, 8} -> [i \in 1..u |-> WBit(d[(i - 1) \div 32 + 1], ((i - 1) % 32) + 1)]
    [] t = 5 -> [i \in 1..u |-> UpByte(d[(i - 1) \div 32 + 1], ((i - 1) % 32) + 1)]
    [] t \in {7, 9} -> [i \in 1..u |-> WBit(d[Swap((i - 1) \div 32 + 1)], ((i - 1) % 32) + 1)]
    [] t = 2 -> [i \in 1..u |-> IF i > n * nb THEN 2 ELSE WBit(d[(i - 1) \div nb + 1], 32 - nb + ((i - 1) % nb) + 1)]
    [] t = 4 -> [i \in 1..u |-> IF i > n * nb THEN 2 ELSE
                   IF (i - 1) % nb = 0 THEN 1 - WBit(d[(i - 1) \div nb + 1], 32 - nb + 1)
                   ELSE WBit(d[(i - 1) \div nb + 1], 32 - nb + ((i - 1) % nb) + 1)]
Same(x, y) == x = 2 \/ x = y
(* the words d are what an extraction of n elements of nb bits after bit p of c gives *)
Decodes(t, c, p, n, nb, d) ==
  CASE t \in {0, 3, 5, 6, 8} -> \A i \in 1..Units(n, nb) : Same(c[p + i], WBit(d[(i - 1) \div 32 + 1], ((i - 1) % 32) + 1))
    [] t \in {7, 9} -> \A i \in 1..Units(n, nb) : Same(c[p + i], WBit(d[Swap((i - 1) \div 32 + 1)], ((i - 1) % 32) + 1))
    [] t = 2 -> \A e \in 1..n : \A k \in 1..32 : LET x == WBit(d[e], k) IN IF k <= 32 - nb THEN x = 0 ELSE Same(c[p + (e - 1) * nb + k - 32 + nb], x)
    [] t = 4 -> \A e \in 1..n : LET s == c[p + (e - 1) * nb + 1] IN \A k \in 1..32 : LET x == WBit(d[e], k) IN
                   IF k <= 32 - nb + 1 THEN (s = 2 \/ x = 1 - s) ELSE Same(c[p + (e - 1) * nb + k - 32 + nb], x)
Cut(c, p, u) == SubSeq(c, 1, p) \o SubSeq(c, p + u + 1, Len(c))
Shown(c, d) == Len(c) = 32 * Len(d) /\ \A i \in 1..Len(c) : Same(c[i], WBit(d[(i - 1) \div 32 + 1], ((i - 1) % 32) + 1))
Room(x) == 32 * x.cap - x.pre          \* bits the data of a buffer may take
Put(k, x) == b' = [j \in DOMAIN b \cup {k} |-> IF j = k THEN x ELSE b[j]]
Keep == UNCHANGED xv
(* --- keys -------------------------------------------------------------------------------- *)
(* definition: [len, up]; a value is a word [hi, lo]; <<65535, 65535>> means none *)
None(w) == w[1] = 65535 /\ w[2] = 65535
KeyBits(def, w) == [k \in 1..def.len |-> IF def.up THEN UpByte(w, 32 - def.len + k) ELSE WBit(w, 32 - def.len + k)]
ZeroKey(def) == [k \in 1..def.len |-> 0]
SetKeys(defs, old, vals) == [i \in 1..Len(defs) |-> IF None(vals[i]) THEN old[i] ELSE KeyBits(defs[i], vals[i])]
ShowsKey(bits, w) == \A k \in 1..32 : WBit(w, k) = IF k <= 32 - Len(bits) THEN 0 ELSE bits[k - 32 + Len(bits)]
ShowsKeys(ks, ws) == Len(ws) = Len(ks) /\ \A i \in 1..Len(ks) : ShowsKey(ks[i], ws[i])
RECURSIVE SumLen(_)
SumLen(defs) == IF defs = <<>> THEN 0 ELSE Head(defs).len + SumLen(Tail(defs))
KeyUnits(defs) == (SumLen(defs) + 63) \div 64
(* --- files ------------------------------------------------------------------------------- *)
Create(defs, adefs) == ~f.open /\ f' = [open |-> TRUE, defs |-> defs, adefs |-> adefs, recs |-> <<>>, lp |-> 1 + KeyUnits(defs), la |-> KeyUnits(adefs)]
                       /\ b' = <<>> /\ pos' = [at |-> 0, crit |-> <<>>]
Reopen(rc) == f.open /\ rc = 0 /\ pos' = [at |-> 0, crit |-> <<>>] /\ UNCHANGED <<f, b>>
Ini(k, cap, typ, prim, info, rc) ==
  IF typ \in 1..126
  THEN rc = 0 /\ UNCHANGED <<f, pos>>
       /\ Put(k, [cap |-> cap, pre |-> 64 * (f.lp + f.la), typ |-> typ, c |-> <<>>,
                  kp |-> SetKeys(f.defs, [i \in 1..Len(f.defs) |-> ZeroKey(f.defs[i])], prim),
                  ka |-> SetKeys(f.adefs, [i \in 1..Len(f.adefs) |-> ZeroKey(f.adefs[i])], info)])
  ELSE rc < 0 /\ b' = [j \in DOMAIN b \ {k} |-> b[j]] /\ UNCHANGED <<f, pos>>
Upd(k, typ, prim, info, rc) ==
  IF typ \in 1..126 \cup {-1}
  THEN rc = 0 /\ UNCHANGED <<f, pos>>
       /\ Put(k, [b[k] EXCEPT !.typ = IF typ = -1 THEN @ ELSE typ, !.kp = SetKeys(f.defs, @, prim), !.ka = SetKeys(f.adefs, @, info)])
  ELSE rc < 0 /\ Keep
Hdr(k, typ, prim, info) == typ = b[k].typ /\ ShowsKeys(b[k].kp, prim) /\ ShowsKeys(b[k].ka, info) /\ Keep
(* --- edits: rc is what the call returned ---------------------------------------------------- *)
Add(k, d, n, nb, t, rc) ==
  IF ~TypeOK(t, nb) \/ Len(b[k].c) + Units(n, nb) > Room(b[k]) THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ Put(k, [b[k] EXCEPT !.c = @ \o Encode(t, d, n, nb)]) /\ UNCHANGED <<f, pos>>
Ins(k, d, p, n, nb, t, rc) ==
  IF p % 64 # 0 \/ ~TypeOK(t, nb) \/ Len(b[k].c) + Units(n, nb) > Room(b[k]) \/ p > Len(b[k].c) THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ Put(k, [b[k] EXCEPT !.c = SubSeq(@, 1, p) \o Encode(t, d, n, nb) \o SubSeq(@, p + 1, Len(@))]) /\ UNCHANGED <<f, pos>>
Rep(k, d, p, n, nb, t, rc) ==
  IF p % 64 # 0 \/ ~TypeOK(t, nb) \/ p + Units(n, nb) > Len(b[k].c) THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ Put(k, [b[k] EXCEPT !.c = SubSeq(@, 1, p) \o Encode(t, d, n, nb) \o SubSeq(@, p + Units(n, nb) + 1, Len(@))]) /\ UNCHANGED <<f, pos>>
Cutp(k, p, n, nb, t, rc) ==
  IF p % 64 # 0 \/ BadType(t, nb) \/ p + Units(n, nb) > Len(b[k].c) THEN rc < 0 /\ Keep
  ELSE rc = 0 /\ Put(k, [b[k] EXCEPT !.c = Cut(@, p, Units(n, nb))]) /\ UNCHANGED <<f, pos>>
Xtr(k, p, n, nb, t, rc, d) ==
  /\ Keep
  /\ IF p % 64 # 0 \/ ~TypeOK(t, nb) \/ p + Units(n, nb) > Len(b[k].c) THEN rc < 0
     ELSE rc = 0 /\ Decodes(t, b[k].c, p, n, nb, d) = TRUE
(* --- records -------------------------------------------------------------------------------- *)
Rec(x) == [live |-> TRUE, typ |-> x.typ, prim |-> x.kp, info |-> x.ka, data |-> x.c]
PutNew(k, rc) == rc = 0 /\ f' = [f EXCEPT !.recs = Append(@, Rec(b[k]))] /\ pos' = [pos EXCEPT !.at = 0] /\ UNCHANGED b
(* h: record rewritten; app: the negative of the handle was given (always appended) *)
PutOver(k, h, app, rc) ==
  IF h \notin 1..Len(f.recs) \/ (h \in 1..Len(f.recs) /\ ~f.recs[h].live) THEN rc < 0 /\ UNCHANGED <<f, b>> /\ pos' = [pos EXCEPT !.at = 0]
  ELSE /\ rc = 0 /\ UNCHANGED b /\ pos' = [pos EXCEPT !.at = 0]
       /\ IF ~app /\ Len(f.recs[h].data) = Len(b[k].c)
          THEN f' = [f EXCEPT !.recs[h] = Rec(b[k])]
          ELSE f' = [f EXCEPT !.recs = Append([@ EXCEPT ![h] = [@ EXCEPT !.live = FALSE]], Rec(b[k]))]
Del(h, rc) == IF h \in 1..Len(f.recs) /\ f.recs[h].live THEN rc = 0 /\ f' = [f EXCEPT !.recs[h] = [@ EXCEPT !.live = FALSE]] /\ UNCHANGED <<b, pos>>
              ELSE rc < 0 /\ Keep
Get(k, cap, h, rc, len) ==
  IF h \notin 1..Len(f.recs) \/ (h \in 1..Len(f.recs) /\ ~f.recs[h].live) THEN rc < 0 /\ b' = [j \in DOMAIN b \ {k} |-> b[j]] /\ UNCHANGED <<f, pos>>
  ELSE LET pre == 64 * (f.lp + f.la) IN
       IF pre + Len(f.recs[h].data) > 32 * cap THEN rc < 0 /\ b' = [j \in DOMAIN b \ {k} |-> b[j]] /\ UNCHANGED <<f, pos>>
       ELSE /\ rc = 0 /\ UNCHANGED <<f, pos>>
            /\ Put(k, [cap |-> cap, pre |-> pre, typ |-> f.recs[h].typ, c |-> f.recs[h].data, kp |-> f.recs[h].prim, ka |-> f.recs[h].info])
Prm(h, rc, typ, lng, prim) ==
  /\ Keep
  /\ IF h \notin 1..Len(f.recs) THEN rc < 0
     ELSE f.recs[h].live => (rc = 0 /\ typ = f.recs[h].typ /\ lng = f.lp + f.la + Len(f.recs[h].data) \div 64 /\ ShowsKeys(f.recs[h].prim, prim))
Match(r, crit) == r.live /\ \A i \in 1..Len(crit) : crit[i] = <<>> \/ crit[i] = r.prim[i]
Criteria(ws) == [i \in 1..Len(f.defs) |-> IF None(ws[i]) THEN <<>> ELSE KeyBits(f.defs[i], ws[i])]
First(from, crit) == LET S == {i \in from..Len(f.recs) : Match(f.recs[i], crit)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* from: record to start after (0: from the beginning, -1: from the last one found); ws = <<>>: same criteria; found = 0: not found *)
Loc(from, ws, found) ==
  LET crit == IF ws = <<>> THEN pos.crit ELSE Criteria(ws)
      st == IF from = -1 THEN pos.at ELSE from
      r == First(st + 1, crit)
  IN /\ found = r /\ pos' = [at |-> r, crit |-> crit] /\ UNCHANGED <<f, b>>
Live == {i \in 1..Len(f.recs) : f.recs[i].live}
Sta(nrec, nprm, naux, lens, alens, appl) ==
  /\ Keep /\ nrec = Cardinality(Live) /\ nprm = Len(f.defs) /\ naux = Len(f.adefs) /\ appl
  /\ lens = [i \in 1..nprm |-> f.defs[i].len] /\ alens = [i \in 1..naux |-> f.adefs[i].len]
XInit == f = NoFile /\ b = <<>> /\ pos = [at |-> 0, crit |-> <<>>]
=============================================================================
