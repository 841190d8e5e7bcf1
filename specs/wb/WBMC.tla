-------------------------------- MODULE WBMC --------------------------------
(* Exhaustive: all histories (within the bounds) of two boards with few names, kinds, options and values; and generation
   of behaviours to replay.                                                                                              *)
EXTENDS WB, Json
CONSTANTS Depth, GDepth
VARIABLES hist, did
mv == <<bd, files, cur, hist, did>>
Nm == {<<65>>, <<65, 66>>}
Kind == {<<INT, 4, 0>>, <<INT, 4, 2>>, <<CHAR, 3, 0>>}
Opts == {0, NONE, UNTIL, MANY, CREATE, ONRST + NONE, ATRST + NONE, LOCL + NONE}
Vals(k) == IF k[1] = CHAR THEN {<<"a">>} ELSE IF k[3] = 0 THEN {<<"00000001">>, <<"00000002">>} ELSE {<<"00000003">>, <<"00000004", "00000005">>}
MInit == WInit /\ hist = 0 /\ did = <<"none">>
MPut == \E w \in DOMAIN bd, nm \in Nm, k \in Kind, o \in Opts : \E v \in Vals(k) :
   LET n == IF k[3] = 0 THEN 0 ELSE Len(v) IN
   /\ \E rc \in {-1, 0, 1, 2} : Put(w, nm, k[1], k[2], n, o, v, rc) /\ did' = <<"put", w, nm, rc>>
MLock == \E w \in DOMAIN bd, p \in {<<>>, <<65, 66>>} :
   LET m == bd[w] S == {nm \in DOMAIN m : Prefix(p, nm) /\ m[nm].until} ok == \A nm \in S : m[nm].init IN
   \E T \in SUBSET {nm \in S : m[nm].init} : (ok => T = S)
      /\ SetB(w, [nm \in DOMAIN m |-> IF nm \in T THEN [m[nm] EXCEPT !.ro = TRUE, !.many = FALSE] ELSE m[nm]]) /\ did' = <<"lock", w, p, ok>>
D(nm, k, o) == [k |-> "D", name |-> nm, ok |-> TRUE, t |-> k[1], s |-> k[2], n |-> k[3], own |-> TRUE, o |-> o]
KV(nm, z) == [k |-> "K", name |-> nm, kind |-> "i", i4 |-> z, i8 |-> z, r4 |-> z, r8 |-> z, l |-> z, st |-> z]
MRead == \E w \in DOMAIN bd, nm \in Nm, mode \in 0..2 : \E ds \in {<<KV(nm, <<"00000009">>)>>, <<D(nm, <<INT, 4, 0>>, NONE), KV(nm, <<"00000009">>)>>, <<KV(nm, <<"00000009">>), KV(nm, <<"00000007">>)>>} :
   \E rc \in {0, -1} : Read(w, TRUE, <<>>, mode, ds, rc) /\ did' = <<"read", w, nm, rc>>
MNext == /\ hist < Depth /\ hist' = hist + 1
         /\ \/ MPut \/ MLock \/ MRead
            \/ New(1) /\ did' = <<"new", 1>>
            \/ \E rc \in {0, -1} : Free(1, rc) /\ did' = <<"free", 1, rc>>
            \/ Checkpoint(0) /\ did' = <<"ckpt">>
            \/ \E how \in {0, 1}, rc \in {0, -1} : Restart(how, rc) /\ did' = <<"restart">>
            \/ \E i \in {0, 1} : CkName(i, TRUE, 0) /\ did' = <<"ckname">>
TypeInv == \A w \in DOMAIN bd : \A nm \in DOMAIN bd[w] : LET e == bd[w][nm] IN
   /\ Len(e.v) = Max1(e.n) /\ (e.t # CHAR => \A i \in 1..Len(e.v) : Len(e.v[i]) \in {1, 8}) /\ (e.s \in {4, 40})
   /\ ~(e.ro /\ e.many)
(* an entry that is read-only and has a value keeps it, except when the process starts again; an entry never changes its
   kind while its board lives; refused operations keep every value that can be read; other boards are not touched        *)
Same(e, f) == e.v = f.v /\ e.init = f.init /\ e.bad = f.bad /\ e.ro = f.ro
ReadOnly == [][did'[1] \notin {"restart", "new", "free"} => \A w \in DOMAIN bd : \A nm \in DOMAIN bd[w] : Protected(bd[w][nm]) => Same(bd[w][nm], bd'[w][nm])]_mv
KindKept == [][did'[1] \notin {"restart", "new", "free"} => \A w \in DOMAIN bd : \A nm \in DOMAIN bd[w] : nm \in DOMAIN bd'[w] /\ \A f \in {"t", "s", "n", "local", "onrst", "atrst", "until"} : bd[w][nm][f] = bd'[w][nm][f]]_mv
Refused == [][(did'[1] = "put" /\ did'[4] < 0) => \A w \in DOMAIN bd : DOMAIN bd'[w] = DOMAIN bd[w] /\ \A nm \in DOMAIN bd[w] : bd'[w][nm].v = bd[w][nm].v \/ bd'[w][nm].bad]_mv
OneBoard == [][\A w \in DOMAIN bd : (Len(did') > 1 /\ did'[2] # w) \/ did'[1] \in {"ckpt", "ckname"} => w \in DOMAIN bd' /\ bd'[w] = bd[w]]_mv
OneEntry == [][did'[1] = "put" => \A nm \in DOMAIN bd[did'[2]] : nm # did'[3] => bd'[did'[2]][nm] = bd[did'[2]][nm]]_mv
(* what comes back from a checkpoint is what was there when it was written *)
Back == [][did'[1] = "restart" => (cur \in DOMAIN files => DOMAIN bd'[0] = DOMAIN files[cur] /\ \A nm \in DOMAIN bd'[0] : LET e == files[cur][nm] f == bd'[0][nm] IN f.v = e.v /\ f.rst /\ (f.init = (e.init /\ ~e.local)))]_mv
(* --- behaviours ------------------------------------------------------------------------- *)
Rnd(S) == TLCEval(RandomElement(S))
A(x) == hist' = Append(hist, x)
GNames == {"A", "AB", "ab", "Key", "key1", "pk/A", "long_name_of_27_characters_"}
GKind == {<<2, 4, 0>>, <<2, 8, 0>>, <<1, 4, 0>>, <<4, 4, 0>>, <<3, 9, 0>>, <<3, 50, 0>>, <<2, 4, 3>>, <<1, 8, 2>>, <<3, 5, 4>>, <<2, 4, 40>>, <<2, 8, 600>>}
GOpt == {0, 1, 8, 128, 256, 257, 512, 513, 520, 1024, 384, 2304, 2176, 768}
GInit == WInit /\ hist = <<>> /\ did = <<0>>
RdDir(z) == LET n == Rnd({"A", "AB", "Key", "zed"}) c == Rnd(1..5) IN
   CASE c = 1 -> "D/" \o n \o "/I4/0/" \o Rnd({"0", "1"}) \o "/" \o Rnd({"256", "512", "1024"})
     [] c = 2 -> "D/" \o n \o "/C9/" \o Rnd({"0", "2"}) \o "/0/8"
     [] c = 3 -> "K/" \o n \o "/i/" \o Rnd({"5", "-7", "1,2", "1,2,3,4,5"})
     [] c = 4 -> "K/" \o n \o "/s/" \o Rnd({"abc", "two_words,x", "far_too_long_to_fit"})
     [] OTHER -> "O/" \o Rnd({"256", "512", "8"})
GNext ==
  /\ Len(hist) < GDepth /\ UNCHANGED <<bd, files, cur, did>>
  /\ \E o \in {Rnd(1..40)}, w \in {Rnd({0, 0, 1})}, n \in {Rnd(GNames)}, k \in {Rnd(GKind)}, s \in {Rnd(1..9999)}, f \in {Rnd({0, 1})}, m \in {Rnd({0, 0, 0, 1})} :
       IF Len(hist) = 0 THEN A(<<"new", 1>>)
       ELSE IF o <= 14 THEN A(<<"put", w, n, k[1], k[2], IF k[3] > 1 THEN k[3] - m ELSE k[3], Rnd(GOpt), s, f>>)
       ELSE IF o <= 24 THEN A(<<"get", w, n, k[1], k[2], k[3], f>>)
       ELSE IF o <= 27 THEN A(<<"meta", w, n>>)
       ELSE IF o <= 29 THEN A(<<"keys", w, Rnd({".", "A", "k", "pk/"}), Rnd({1, 9}), Rnd({27, 30})>>)
       ELSE IF o = 30 THEN A(<<"check", w, Rnd({".", "a"}), Rnd({-1, 64, 256, 32})>>)
       ELSE IF o <= 32 THEN A(<<"lock", w, Rnd({".", "A", "key"}), f>>)
       ELSE IF o <= 34 THEN A(<<"ckpt">>)
       ELSE IF o <= 36 THEN A(<<"restart", Rnd(0..3)>>)
       ELSE IF o = 37 THEN A(<<"ckname", f, Rnd(0..2)>>)
       ELSE IF o = 38 THEN A(<<"new", 1>>)
       ELSE A(<<"read", w, Rnd({".", "pk/"}), Rnd(0..2), 1, s, RdDir(1), RdDir(2), RdDir(3)>>)
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
