----------------------------- MODULE XdfMC -----------------------------
(* Exhaustive: all histories (within the bounds) of edits on a buffer and of records on a file with one
   key of 2 bits and one of 3 bits; and generation of behaviours to replay.                               *)
EXTENDS Xdf, Json
CONSTANTS Cap, MaxRecs, Depth, GDepth
VARIABLES h, hist   \* h: the data the calls were given, edited independently as a list of units: what the property says
mv == <<f, b, pos, h, hist>>
W == {<<0, 1>>, <<65535, 65534>>, <<24930, 25187>>}
D1 == [len |-> 2, up |-> FALSE]  D2 == [len |-> 3, up |-> FALSE]  A1 == [len |-> 6, up |-> TRUE]
KV == {<<0, 1>>, <<0, 2>>, <<65535, 65535>>}
MInit == XInit /\ h = <<>> /\ hist = 0
Unit(t, w, nb) == Encode(t, <<w, w, w, w>>, IF nb >= 32 THEN 2 ELSE 2, nb)
Types == {<<0, 32>>, <<5, 8>>, <<7, 32>>, <<2, 7>>, <<4, 9>>}
MEdit == 1 \in DOMAIN b /\
  \E tn \in Types, w \in W : \E d \in {<<w, w, w, w>>} : LET t == tn[1] nb == tn[2] u == Encode(t, d, 2, nb) IN
     \/ /\ Add(1, d, 2, nb, t, IF Len(b[1].c) + 64 > Room(b[1]) THEN -1 ELSE 0)
        /\ h' = IF 64 * (Len(h) + 1) > Room(b[1]) THEN h ELSE Append(h, u)
     \/ \E p \in 0..Len(h) : /\ Ins(1, d, 64 * p, 2, nb, t, IF Len(b[1].c) + 64 > Room(b[1]) THEN -1 ELSE 0)
                                /\ h' = IF 64 * (Len(h) + 1) > Room(b[1]) THEN h ELSE SubSeq(h, 1, p) \o <<u>> \o SubSeq(h, p + 1, Len(h))
     \/ \E p \in 0..Len(h) : /\ Rep(1, d, 64 * p, 2, nb, t, IF p >= Len(h) THEN -1 ELSE 0)
                                /\ h' = IF p >= Len(h) THEN h ELSE [h EXCEPT ![p + 1] = u]
     \/ \E p \in 0..Len(h) : /\ Cutp(1, 64 * p, 2, nb, t, IF p >= Len(h) THEN -1 ELSE 0)
                                /\ h' = IF p >= Len(h) THEN h ELSE SubSeq(h, 1, p) \o SubSeq(h, p + 2, Len(h))
MFile == \/ 1 \in DOMAIN b /\ Len(f.recs) < MaxRecs /\ PutNew(1, 0) /\ h' = h
         \/ 1 \in DOMAIN b /\ \E k \in 1..Len(f.recs), app \in BOOLEAN : f.recs[k].live /\ Len(f.recs) < MaxRecs /\ PutOver(1, k, app, 0) /\ h' = h
         \/ \E k \in 1..Len(f.recs) : f.recs[k].live /\ Del(k, 0) /\ h' = h
         \/ \E k \in 1..Len(f.recs) : f.recs[k].live /\ Get(1, Cap + 64, k, 0, 0)
               /\ h' = [i \in 1..(Len(f.recs[k].data) \div 64) |-> SubSeq(f.recs[k].data, 64 * i - 63, 64 * i)]
         \/ \E from \in {0, -1} : \E k1 \in KV, k2 \in KV : (from = -1 => pos.at > 0) /\ \E r \in 0..Len(f.recs) : Loc(from, <<k1, k2>>, r) /\ h' = h
MStart == \/ ~f.open /\ Create(<<D1, D2>>, <<A1>>) /\ h' = h
          \/ f.open /\ \E k1 \in KV, k2 \in KV, a \in {<<0, 97>>} : Ini(1, Cap, 5, <<k1, k2>>, <<a>>, 0) /\ h' = <<>>
MNext == hist < Depth /\ hist' = hist + 1 /\ (MStart \/ MEdit \/ MFile)
(* the buffer is the edited list of units; the found record is live, matches, and no earlier one does *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Edited == 1 \in DOMAIN b => (b[1].c = Flat(h) /\ Len(b[1].c) <= Room(b[1]) /\ Len(b[1].c) % 64 = 0)
Found == pos.at > 0 /\ pos.at <= Len(f.recs) /\ f.recs[pos.at].live => Match(f.recs[pos.at], pos.crit)
(* what was encoded is decoded, for every type and width *)
Round == \A nb \in 1..32, w \in W \cup {<<0, 5>>} :
   LET lo == [k \in 1..32 |-> IF k > 32 - nb THEN WBit(w, k) ELSE 0]
       word(bs) == <<LET S[i \in 0..16] == IF i = 0 THEN 0 ELSE 2 * S[i - 1] + bs[i] IN S[16], LET S[i \in 16..32] == IF i = 16 THEN 0 ELSE 2 * S[i - 1] + bs[i] IN S[32]>>
       sg == [k \in 1..32 |-> IF k > 32 - nb THEN WBit(w, k) ELSE WBit(w, 32 - nb + 1)] IN
   /\ Decodes(2, Encode(2, <<word(lo), word(lo), word(lo)>>, 3, nb), 0, 3, nb, <<word(lo), word(lo), word(lo)>>)
   /\ Decodes(4, Encode(4, <<word(sg), word(sg), word(sg)>>, 3, nb), 0, 3, nb, <<word(sg), word(sg), word(sg)>>)
ASSUME Round
(* --- behaviours ------------------------------------------------------------------------- *)
Rnd(S) == TLCEval(RandomElement(S))
A(x) == hist' = Append(hist, x)
KeyLens == {<<<<8, 0>>, <<8, 0>>, <<8, 1>>, <<8, 0>>, <<8, 0>>, <<8, 0>>, <<8, 1>>, <<8, 0>>, <<8, 0>>>>, <<<<32, 0>>>>, <<<<2, 0>>, <<30, 0>>, <<16, 1>>>>, <<<<32, 1>>, <<5, 0>>, <<27, 0>>, <<16, 0>>, <<16, 1>>>>,
            <<<<1, 0>>, <<1, 0>>, <<1, 0>>, <<29, 0>>, <<32, 0>>>>, <<<<16, 0>>, <<16, 0>>, <<16, 0>>, <<8, 0>>, <<8, 0>>, <<7, 0>>>>}
RECURSIVE FlatD(_)
FlatD(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatD(Tail(s))
VARIABLE nk   \* number of keys of each kind, number of records put
GInit == XInit /\ h = <<>> /\ hist = <<>> /\ nk = <<>>
RK(n) == [i \in 1..n |-> Rnd({-1, 0, 1, 2, 3, 4, 5, 6, 7, 8})]
RF(n) == [i \in 1..n |-> Rnd({-1, -1, 0, 1, 2, 3, 4})]
Caps == {2, 4, 6, 10, 14, 20}
Elem == {<<0, 32>>, <<3, 8>>, <<5, 8>>, <<7, 64>>, <<8, 32>>, <<6, 16>>, <<9, 32>>, <<2, 1>>, <<2, 7>>, <<2, 12>>, <<2, 16>>, <<2, 31>>, <<2, 32>>, <<4, 2>>, <<4, 9>>, <<4, 20>>, <<4, 32>>, <<0, 20>>, <<1, 16>>, <<3, 16>>}
GNext ==
  /\ Len(hist) < GDepth /\ UNCHANGED <<f, b, pos, h>>
  /\ IF nk = <<>>
     THEN \E p \in {Rnd(KeyLens)}, a \in {Rnd(KeyLens \cup {<<>>})} : A(<<"new", Len(p)>> \o FlatD(p) \o <<Len(a)>> \o FlatD(a)) /\ nk' = <<Len(p), Len(a)>>
     ELSE /\ nk' = nk
          /\ \E o \in {Rnd(1..40)}, k \in {Rnd({0, 0, 0, 1})}, e \in {Rnd(Elem)}, n \in {Rnd({0, 1, 1, 2, 3, 5, 9})}, p \in {Rnd({0, 64, 128, 192, 256, 320, -64, -64, -65, 32, 1000 * 64})}, s \in {Rnd(1..9999)}, r \in {Rnd(1..8)} :
             IF Len(hist) = 1 \/ o <= 3 THEN \E c \in {Rnd(Caps)}, pk \in {RK(nk[1])}, ik \in {RK(nk[2])}, t \in {Rnd({1, 2, 7, 125, 0, 5, 9, 100})} : A(<<"ini", k, c, t>> \o pk \o ik)
             ELSE IF o <= 12 THEN A(<<"add", k, n, e[2], e[1], s>>)
             ELSE IF o <= 16 THEN A(<<"ins", k, p, n, e[2], e[1], s>>)
             ELSE IF o <= 19 THEN A(<<"rep", k, p, n, e[2], e[1], s>>)
             ELSE IF o <= 22 THEN A(<<"cut", k, p, n, e[2], e[1]>>)
             ELSE IF o <= 25 THEN A(<<"xtr", k, p, n, e[2], e[1]>>)
             ELSE IF o <= 29 THEN A(<<"put", k, 0, 0>>)
             ELSE IF o = 30 THEN A(<<"put", k, r, s % 2>>)
             ELSE IF o = 31 THEN A(<<"del", r>>)
             ELSE IF o <= 33 THEN A(<<"get", k, 2 * n + 2, r>>)
             ELSE IF o = 34 THEN A(<<"prm", r>>)
             ELSE IF o <= 37 THEN \E pk \in {RF(nk[1])} : A(<<"loc", Rnd({0, 0, 1, 3, -1}), 1>> \o pk)
             ELSE IF o = 38 THEN A(<<"loc", -1, 0>>)
             ELSE IF o = 39 THEN \E pk \in {RK(nk[1])}, ik \in {RK(nk[2])} : A(<<"upd", k, Rnd({-1, 3, 127})>> \o pk \o ik)
             ELSE IF s % 3 = 0 THEN A(<<"reopen">>) ELSE IF s % 3 = 1 THEN A(<<"sta">>) ELSE A(<<"hdr", k>>)
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
MInit2 == MInit /\ nk = 0
MNext2 == MNext /\ nk' = nk
=============================================================================
