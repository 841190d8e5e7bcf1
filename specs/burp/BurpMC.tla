----------------------------- MODULE BurpMC -----------------------------
(* Exhaustive: all histories (within the bounds) of two buffers and a file of reports with small blocks; and
   generation of behaviours to replay.                                                                       *)
EXTENDS Burp, Json
CONSTANTS Cap, MaxRecs, Depth, GDepth
VARIABLES hist, did   \* did: the last operation
mv == <<b, recs, long, hist, did>>
H(n) == [temps |-> 100 * n, flgs |-> 0, stn |-> <<64 + n, 32, 32, 32, 32, 32, 32, 32, 32>>, idtyp |-> n, lat |-> 0, lon |-> 0, dx |-> 0, dy |-> 0, elev |-> 0, drcv |-> 0,
         date |-> 20000101, oars |-> 0, run |-> 0]
AnyH == [H(1) EXCEPT !.temps = -1, !.flgs = -1, !.stn = [i \in 1..9 |-> 42], !.idtyp = -1, !.lat = -1, !.lon = -1, !.dx = -1, !.dy = -1, !.elev = -1, !.drcv = -1, !.date = -1, !.oars = -1, !.run = -1]
V(s) == IF s = 1 THEN <<<<0, 1>>, Missing>> ELSE IF s = 2 THEN <<<<0, 9>>, <<0, 200>>>> ELSE <<<<65535, 65530>>, <<0, 3>>>>
Shapes == {[nele |-> 1, nval |-> 2, nt |-> 1], [nele |-> 2, nval |-> 1, nt |-> 1]}
Kept(s, t, nb) == IF t = 2 /\ s = 3 THEN {<<4, IF nb < 5 THEN 5 ELSE nb>>} ELSE {<<t, IF s = 2 /\ nb < 9 THEN 9 ELSE nb>>}
X(sh, fam, t, nb) == [nele |-> sh.nele, nval |-> sh.nval, nt |-> sh.nt, fam |-> fam, desc |-> 0, typ |-> fam, nb |-> nb, t |-> t]
Els(sh) == [i \in 1..sh.nele |-> 10 + i]
MInit == BInit /\ hist = 0 /\ did = <<"none">>
MAdd(k) == \E sh \in Shapes, fam \in {1, 70}, s \in 1..3, t \in {2, 4} : \E kp \in Kept(s, t, 4) :
   LET x == X(sh, fam, t, 4) nbk == Block(x.nele, x.nval, x.nt, fam, fam, kp[1], kp[2], Els(sh), V(s))
       fits == Bits(Append(b[k].bl, nbk)) <= b[k].cap IN
   /\ Len(b[k].bl) < 3
   /\ Add(k, x, Els(sh), V(s), IF fits THEN 0 ELSE -1, Len(b[k].bl) + 1, Bit0(Append(b[k].bl, nbk), Len(b[k].bl) + 1), kp[1], kp[2])
   /\ did' = <<"add", k, IF fits THEN Len(b[k].bl) + 1 ELSE 0>>
MDel(k) == \E n \in 1..Len(b[k].bl) : Del(k, n, 0) /\ did' = <<"del", k, n>>
MRep(k) == \E n \in 1..Len(b[k].bl), s \in 1..3 : LET x == b[k].bl[n] IN \E kp \in Kept(s, x.t, x.nb) : Rep(k, n, V(s), 0, kp[1], kp[2]) /\ did' = <<"rep", k, n>>
MPut(k) == Len(recs) < MaxRecs /\ \E h \in {0} \cup Live : Put(k, h, 0) /\ did' = <<"put", k, h>>
MFile == \/ \E h \in Live, k \in 1..2 : (IF Bits(recs[h].bl) > Cap THEN Get(k, Cap, h, -1, 0) ELSE Get(k, Cap, h, 0, Cap)) /\ did' = <<"get", k, h>>
         \/ \E h \in Live : DelRec(h, 0) /\ did' = <<"fdel", h>>
MNext == /\ hist < Depth /\ hist' = hist + 1
         /\ \/ \E k \in 1..2, n \in 1..2 : Ini(k, Cap, H(n), 0) /\ did' = <<"ini", k>>
            \/ \E k \in DOMAIN b : MAdd(k) \/ MDel(k) \/ MRep(k) \/ MPut(k)
            \/ \E k \in DOMAIN b : Upd(k, [AnyH EXCEPT !.idtyp = 7], 0) /\ did' = <<"upd", k>>
            \/ MFile
(* blocks lie one after the other, inside the buffer *)
Laid == \A k \in DOMAIN b : /\ Bits(b[k].bl) <= b[k].cap
          /\ \A i, j \in 1..Len(b[k].bl) : i < j => Bit0(b[k].bl, i) + UData(b[k].bl[i]) <= Bit0(b[k].bl, j)
          /\ \A n \in 1..Len(b[k].bl) : 320 + 128 * Len(b[k].bl) + 64 * (Bit0(b[k].bl, n) + UData(b[k].bl[n])) <= Bits(b[k].bl)
Lengthy == \A h \in Live : Words(recs[h].bl) <= long
(* an edit touches its own block only; a report that is not rewritten keeps what was stored *)
Old(k, i) == b[k].bl[i]
OneBlock == LET o == did'[1] IN
   CASE o = "add" -> LET k == did'[2] IN SubSeq(b'[k].bl, 1, Len(b[k].bl)) = b[k].bl /\ b'[k].h = b[k].h
     [] o = "del" -> LET k == did'[2] n == did'[3] IN Len(b'[k].bl) = Len(b[k].bl) - 1 /\ \A i \in 1..Len(b'[k].bl) : b'[k].bl[i] = Old(k, IF i < n THEN i ELSE i + 1)
     [] o = "rep" -> LET k == did'[2] n == did'[3] IN Len(b'[k].bl) = Len(b[k].bl) /\ \A i \in 1..Len(b'[k].bl) : i # n => b'[k].bl[i] = Old(k, i)
     [] o = "put" -> \A h \in 1..Len(recs) : recs'[h].bl = recs[h].bl /\ recs'[h].h = recs[h].h /\ (h # did'[3] => recs'[h] = recs[h])
     [] o = "get" -> recs' = recs /\ (did'[2] \in DOMAIN b' => b'[did'[2]].bl = recs[did'[3]].bl /\ b'[did'[2]].h = recs[did'[3]].h)
     [] o = "upd" -> b'[did'[2]].bl = b[did'[2]].bl
     [] OTHER -> TRUE
EditsOne == [][OneBlock]_mv
Others == [][\A k \in DOMAIN b : (Len(did') < 2 \/ did'[2] # k \/ did'[1] \in {"fdel"}) => (k \in DOMAIN b' /\ b'[k] = b[k])]_mv
(* names of elements are one to one *)
ASSUME \A f \in 0..3, x \in {0, 1, 5, 31, 63}, y \in {0, 1, 127, 255} : LET c == Coded(f * 100000 + x * 1000 + y) IN ((c \div 16384) * 100000) + (((c \div 256) % 64) * 1000) + (c % 256) = f * 100000 + x * 1000 + y
(* --- behaviours ------------------------------------------------------------------------- *)
Rnd(S) == TLCEval(RandomElement(S))
A(x) == hist' = Append(hist, x)
GInit == BInit /\ hist = <<>> /\ did = <<0, 0>>   \* blocks in the two buffers, about
Stn == {"71826", "CYUL", "ship-0042", "LONGNAMESTATION", "_x_"}
RHdr(z) == <<Rnd(Stn), Rnd({0, 1200, 1230, 2359}), Rnd({0, 16777215, 4096}), Rnd({1, 32, 254}), Rnd({0, 9000, 65534}), Rnd({0, 27500, 65534}), Rnd({0, 4094}), Rnd({0, 77}), Rnd({0, 400, 8190}), Rnd({0, 2046}),
            Rnd({19950315, 950315, 20240229, 20991231, 19991231}), Rnd({0, 65534}), Rnd({0, 5, 254})>>
GBlock(z) == \E ne \in {Rnd({1, 2, 3, 4, 5, 7, 8, 12, 127})}, nv \in {Rnd({1, 1, 2, 5})}, nt \in {Rnd({1, 1, 3})}, t \in {Rnd({0, 2, 2, 2, 4, 3, 5, 6, 7, 8, 9})}, nb \in {Rnd({1, 4, 8, 13, 16, 20, 31, 32})}, f \in {Rnd({0, 1, 70, 4095})}, k \in {Rnd({0, 1})} :
   A(<<"add", k, IF t \in 7..9 THEN 4 * ne ELSE ne, nv, nt, f, 0, Rnd({0, 106, 2048, 32767}), IF t \in {3, 5} THEN 8 ELSE IF t = 0 THEN 32 ELSE nb, t, Rnd(0..9), Rnd(1..9999), 0>>)
GNext ==
  /\ Len(hist) < GDepth /\ UNCHANGED <<b, recs, long, did>>
  /\ \E o \in {Rnd(1..40)}, k \in {Rnd({0, 0, 1})}, n \in {Rnd({1, 1, 2, 3, 4})}, r \in {Rnd(1..5)}, s \in {Rnd(1..9999)} :
       IF Len(hist) = 0 THEN A(<<"create">>)
       ELSE IF Len(hist) <= 2 \/ o = 1 THEN A(<<"ini", IF Len(hist) = 1 THEN 0 ELSE IF Len(hist) = 2 THEN 1 ELSE k, Rnd({30, 100, 600, 3000})>> \o RHdr(k))
       ELSE IF o <= 12 THEN GBlock(k)
       ELSE IF o <= 15 THEN A(<<"delb", k, n>>)
       ELSE IF o <= 19 THEN A(<<"rep", k, n, Rnd(0..9), s>>)
       ELSE IF o <= 22 THEN A(<<"all", k>>)
       ELSE IF o <= 24 THEN A(<<"loc", k, Rnd({-1, 0, 1, 70, 4095}), 0, Rnd({-1, 0, 1}), Rnd({-1, 0, 6, 127}), Rnd({-1, 0, 10}), Rnd({0, 1}), s % 2>>)
       ELSE IF o = 25 THEN A(<<"prml", k, Rnd({0, 1}), Rnd({1, 5, 30})>>)
       ELSE IF o = 26 THEN A(<<"len", k>>)
       ELSE IF o = 27 THEN A(<<"hdr", k>>)
       ELSE IF o = 28 THEN A(<<"upd", k, Rnd({"NEW", "*********"}), -1, Rnd({-1, 5}), -1, Rnd({-1, 7}), -1, -1, -1, -1, Rnd({-1, 3}), Rnd({-1, 20010203}), -1, Rnd({-1, 1})>>)
       ELSE IF o <= 31 THEN A(<<"put", k, 0>>)
       ELSE IF o = 32 THEN A(<<"put", k, r>>)
       ELSE IF o <= 34 THEN A(<<"get", k, Rnd({-1, 100, 3000}), r>>)
       ELSE IF o = 35 THEN A(<<"fdel", r>>)
       ELSE IF o <= 37 THEN A(<<"floc", Rnd({0, 0, 1, 2}), Rnd(Stn \cup {"*********", "********"}), Rnd({-1, 1200}), Rnd({-1, 32}), Rnd({-1, 9000}), -1, Rnd({-1, 20240229})>>)
       ELSE IF o = 38 THEN A(<<"prm", r>>)
       ELSE IF o = 39 THEN A(<<"reopen">>) ELSE A(<<"counts">>)
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
