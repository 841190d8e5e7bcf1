------------------------------- MODULE FstMC -------------------------------
(* Model checking of Fst.tla with two records per directory page, two files and two units, and the generator of behaviours
   that are replayed into the code. *)
EXTENDS Fst, Json
CONSTANTS Depth, GDepth
VARIABLES n, hist        \* number of records written; number of steps, or the script being generated
mvars == <<fs, op, n, hist>>
Units == {11, 12}
FileOf == [u \in Units |-> IF u = 11 THEN "fa" ELSE "fb"]
Q(nv) == [dv |-> -1, et |-> "", ip1 |-> -1, ip2 |-> -1, ip3 |-> -1, tv |-> "", nv |-> nv]
W(nv, ni, k, rew) == [npak |-> -32, dv |-> 0, deet |-> 0, npas |-> 0, ni |-> ni, nj |-> 1, nk |-> 1, ip1 |-> 1, ip2 |-> 0, ip3 |-> 0, tv |-> "P", nv |-> nv, et |-> "E", gt |-> "X",
                      ig1 |-> 0, ig2 |-> 0, ig3 |-> 0, ig4 |-> 0, dt |-> 5, rew |-> rew, k |-> k]
Hs(u) == UNION {{Handle(u, <<i, j>>) : j \in 1..Len(op[Chain(u)[i]].dir)} : i \in 1..Len(Chain(u))}
AllH == UNION {Hs(u) : u \in DOMAIN op}
\* the results of a call are whatever the specification allows
Res(h, ret, ni) == [ret |-> ret, h |-> h, ni |-> ni, nj |-> 1, nk |-> 1]
NoEdit == [deet |-> -1, npas |-> -1, ip1 |-> -1, ip2 |-> -1, ip3 |-> -1, tv |-> "", et |-> "", ig1 |-> -1, ig2 |-> -1, ig3 |-> -1, ig4 |-> -1, dv |-> -1]
MInit == Init0 /\ n = 0 /\ hist = 0
Same == UNCHANGED n
MNext ==
  /\ hist < Depth /\ hist' = hist + 1
  /\ \/ \E u \in Units, ro \in {0, 1}, ret \in -1..4 : u \notin DOMAIN op /\ Open(u, [f |-> FileOf[u], ro |-> ro, ret |-> ret, fi |-> u]) /\ Same
     \/ \E u \in DOMAIN op : op[u].lk = 0 /\ (\A v \in DOMAIN op : op[v].lk /= u) /\ Close(u, 0) /\ Same
     \/ \E u \in DOMAIN op : Ckp(u, 0) /\ Same
     \/ \E u \in DOMAIN op, nv \in {"TT", "UU"}, ni \in {1, 3}, rew \in BOOLEAN, ret \in {0, -1} : Ecr(u, W(nv, ni, n + 1, rew) @@ [ret |-> ret]) /\ n' = n + 1
     \/ \E u \in DOMAIN op, nv \in {"", "TT"}, h \in AllH \cup {<<0, 0, 0>>}, ret \in {1, -1}, ni \in {1, 3} : (ret = -1 => ni = 1 /\ h = <<0, 0, 0>>) /\ Inf(u, Q(nv) @@ Res(h, ret, ni)) /\ Same
     \/ \E u \in DOMAIN op, h \in AllH \cup {<<0, 0, 0>>}, ret \in {1, -1}, ni \in {1, 3} : (ret = -1 => ni = 1 /\ h = <<0, 0, 0>>) /\ Sui(u, Res(h, ret, ni)) /\ Same
     \/ \E g \in AllH, ret \in {0, -1} : Eff([g |-> g, ret |-> ret]) /\ Same
     \/ \E g \in AllH, ret \in {0, -1} : Edit(NoEdit @@ [nv |-> "TT", g |-> g, ret |-> ret]) /\ Same
     \/ \E l \in {<<11, 12>>, <<12, 11>>} : {11, 12} = DOMAIN op /\ (\A u \in DOMAIN op : op[u].lk = 0) /\ Link(l, 0) /\ Same
     \/ (\E u \in DOMAIN op : op[u].lk /= 0) /\ Unlink(<<11, 12>>, 0) /\ Same
     \/ Crash([what |-> "none"]) /\ op /= <<>> /\ Same
     \/ \E u \in DOMAIN op, nv \in {"TT", "UU"}, ni \in {1, 3} : Crash([what |-> "ecr", u |-> u] @@ W(nv, ni, n + 1, TRUE)) /\ n' = n + 1
     \/ \E u \in DOMAIN op : Crash([what |-> "close", u |-> u]) /\ Same
MSpec == MInit /\ [][MNext]_mvars
\* ---- properties
Keys == {Key(Q("")), Key(Q("TT")), Key(Q("UU"))}
\* handles name the entries one to one
Handles == \A u \in DOMAIN op : \A i \in 1..Len(Chain(u)) : \A j \in 1..Len(op[Chain(u)[i]].dir) : LET h == Handle(u, <<i, j>>) IN Valid(h) /\ At(h) = <<i, j>> /\ UnitOf(h) = Chain(u)[i]
\* search, then search next until nothing: all the wanted records, once, in the order of the files
RECURSIVE Follow(_, _, _)
Follow(u, p, q) == IF p[1] = 0 THEN <<>> ELSE <<p>> \o Follow(u, FindFrom(Chain(u), p[1], p[2] + 1, q, op[u].m), q)
Enumerates == \A u \in DOMAIN op : \A q \in Keys :
   LET s == Follow(u, FindFrom(Chain(u), 1, 1, q, op[u].m), q) IN
   /\ \A i, j \in DOMAIN s : i < j => s[i][1] < s[j][1] \/ (s[i][1] = s[j][1] /\ s[i][2] < s[j][2])
   /\ {s[i] : i \in DOMAIN s} = UNION {{<<i, j>> : j \in {j \in 1..Len(op[Chain(u)[i]].dir) : op[Chain(u)[i]].dir[j].live /\ Match(op[Chain(u)[i]].dir[j].r, q, op[u].m)}} : i \in 1..Len(Chain(u))}
   /\ s = AllFrom(Chain(u), 1, q, op[u].m)
\* a read-only unit sees the file as it is
ReadOnly == \A u \in DOMAIN op : op[u].ro => op[u].dir = fs[op[u].f].dir
\* what was written is there once; the tags are the order of writing, except where a record was rewritten in place
Distinct == \A u \in DOMAIN op : \A i, j \in DOMAIN op[u].dir : i /= j => op[u].dir[i].r.k /= op[u].dir[j].r.k
Grows == \A u \in DOMAIN op : Len(op[u].dir) >= Len(fs[op[u].f].dir) \/ fs[op[u].f].st /= "ok"
\* steps: files change only by a checkpoint, a close, a creation or a death inside one of them (the fields of records
\* rewritten in place excepted); a call on a unit changes no other unit; a write changes at most one entry and adds at most one
Strip(d) == [i \in DOMAIN d |-> [d[i] EXCEPT !.un = FALSE]]
Durable == [][\A f \in DOMAIN fs : f \in DOMAIN fs' /\ (fs'[f].st = "ok" =>
                \/ Strip(fs'[f].dir) = Strip(fs[f].dir)
                \/ \E u \in DOMAIN op : op[u].f = f /\ ~op[u].ro /\ fs'[f].dir = op[u].dir)]_mvars
Local == [][(DOMAIN op' = DOMAIN op /\ \E u \in DOMAIN op : op'[u].dir /= op[u].dir) =>
              \E u \in DOMAIN op : /\ \A v \in DOMAIN op \ {u} : op'[v].dir = op[v].dir
                                   /\ ~op[u].ro
                                   /\ Len(op'[u].dir) - Len(op[u].dir) \in {0, 1}
                                   /\ Cardinality({i \in DOMAIN op[u].dir : op'[u].dir[i] /= op[u].dir[i]}) <= 1
                                   /\ \A i \in DOMAIN op[u].dir : ~op[u].dir[i].live => ~op'[u].dir[i].live]_mvars
\* ---- behaviours for the code ----
Rnd(S) == TLCEval(RandomElement(S))
GInit == Init0 /\ n = 0 /\ hist = <<>>
Nv == {"TT", "TT", "UU", "GZ"}
A(x) == hist' = Append(hist, x)
GNext == Len(hist) < GDepth /\
  \E o \in {Rnd(1..30)}, u \in {Rnd(Units)}, nv \in {Rnd(Nv)}, ni \in {Rnd({1, 2, 3, 5, 6})}, ip \in {Rnd({0, 1, 2})}, rew \in {Rnd(BOOLEAN)}, ro \in {Rnd({0, 0, 0, 1})} :
   LET Idle == UNCHANGED <<fs, op, n>> /\ A([op |-> "peek", u |-> 0, f |-> FileOf[u]])
       Stay == UNCHANGED <<fs, op, n>>
       On == u \in DOMAIN op
       w == [W(nv, ni, n + 1, rew) EXCEPT !.ip1 = ip] IN
   IF o <= 2 \/ (~On /\ o <= 20) THEN IF On THEN Idle ELSE UNCHANGED n /\ A([op |-> "open", u |-> u, f |-> FileOf[u], ro |-> ro]) /\
        (\E ret \in {IF FileOf[u] \notin DOMAIN fs THEN (IF ro = 1 THEN -1 ELSE 0) ELSE IF fs[FileOf[u]].st = "odd" \/ Refused(FileOf[u], ro = 1) THEN -1 ELSE Len(fs[FileOf[u]].dir)} :
            Open(u, [f |-> FileOf[u], ro |-> ro, ret |-> ret, fi |-> u]))
   ELSE IF o = 3 THEN IF ~On THEN Idle ELSE IF op[u].lk /= 0 \/ \E v \in DOMAIN op : op[v].lk = u THEN Idle ELSE Close(u, 0) /\ UNCHANGED n /\ A([op |-> "close", u |-> u])
   ELSE IF o = 4 THEN IF ~On THEN Idle ELSE Ckp(u, 0) /\ UNCHANGED n /\ A([op |-> "ckp", u |-> u])
   ELSE IF o <= 14 THEN IF ~On THEN Idle ELSE n' = n + 1 /\ Ecr(u, w @@ [ret |-> IF op[u].ro THEN -1 ELSE 0]) /\ A([op |-> "ecr", u |-> u, nv |-> nv, ni |-> ni, ip1 |-> ip, rew |-> rew])
   ELSE IF o <= 17 THEN Stay /\ A([op |-> "inf", u |-> u, nv |-> IF rew THEN nv ELSE "-", ip1 |-> IF ro = 0 THEN -1 ELSE ip])
   ELSE IF o <= 20 THEN Stay /\ A([op |-> "sui", u |-> u])
   ELSE IF o <= 22 THEN IF ~On \/ op[u].dir = <<>> THEN Idle ELSE \E j \in {Rnd(1..Len(op[u].dir))} : UNCHANGED n /\ A([op |-> "eff", u |-> u, p |-> (j - 1) \div 256, r |-> (j - 1) % 256])
                           /\ (\E ret \in {0, -1} : Eff([g |-> Handle(u, <<1, j>>), ret |-> ret]))
   ELSE IF o = 23 THEN Stay /\ A([op |-> "inl", u |-> u, nv |-> nv])
   ELSE IF o = 24 THEN IF {11, 12} /= DOMAIN op THEN Idle ELSE IF \E v \in DOMAIN op : op[v].lk /= 0 THEN Unlink(<<11, 12>>, 0) /\ UNCHANGED n /\ A([op |-> "unlink", u |-> 0])
                       ELSE LET l == IF rew THEN <<11, 12>> ELSE <<12, 11>> IN Link(l, 0) /\ UNCHANGED n /\ A([op |-> "link", l |-> l])
   ELSE IF o = 25 /\ rew THEN Crash([what |-> "none"]) /\ UNCHANGED n /\ A([op |-> "crash"])
   ELSE IF o <= 27 THEN Stay /\ A([op |-> "luk", u |-> u])
   ELSE Stay /\ A([op |-> "scan", u |-> u])
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
