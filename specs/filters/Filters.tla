------------------------------ MODULE Filters ------------------------------
(* the search filters of standard files (desire / exclure requests): up to Max requests of criteria, of which the first one a record
   satisfies decides, and a record that satisfies none is found when nothing is desired.  Strings are sequences of characters; a level is
   [raw, k, v]: the code as stored, and the kind and value it means; times are minutes. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Max, MaxList                 \* number of requests, longest list
VARIABLES req,                        \* 0..Max-1 -> request
          rng,                        \* active requests
          off,                        \* filters switched off
          bun,                        \* [n, des]: request and sense of the calls that name none
          recs                        \* records of the file: id -> record
vars == <<req, rng, off, bun, recs>>
None == [m |-> "no", l |-> <<>>, lo |-> <<>>, hi |-> <<>>, d |-> 0]
Blank == [used |-> FALSE, des |-> FALSE, nv |-> None, tv |-> None, et |-> None, dt |-> None, ip1 |-> None, ip2 |-> None, ip3 |-> None,
          sup |-> [on |-> FALSE, v |-> <<>>, g |-> 32]]
Min2(a, b) == IF a < b THEN a ELSE b
(* ---------------------------------------------------------------- one criterion *)
Pre(p, s) == LET n == Min2(Len(p), Len(s)) IN SubSeq(p, 1, n) = SubSeq(s, 1, n)          \* given characters, as far as the name goes
StrSat(c, s) == c.m = "no" \/ (c.l[1] # <<>> /\ c.l[1][1] = 32) \/ \E i \in 1..Len(c.l) : Pre(c.l[i], s)
DateIn(c, t) == (c.lo = <<>> \/ c.lo[1] <= t) /\ (c.hi = <<>> \/ t <= c.hi[1])
DateSat(c, t) == CASE c.m = "no" -> TRUE
                   [] c.m = "list" -> c.l[1] = -1 \/ \E i \in 1..Len(c.l) : c.l[i] = t
                   [] c.m = "range" -> DateIn(c, t)
                   [] c.m = "delta" -> DateIn(c, t) /\ (t - c.lo[1]) % c.d = 0
Names(s) == s # <<>> /\ s[1] \notin {60, 62, 33, 94}      \* the levels of  < > ! ^  records are not levels
LevIn(c, x) == LET two == c.lo # <<>> /\ c.hi # <<>>
                   lo == IF two /\ c.lo[1].v > c.hi[1].v THEN c.hi ELSE c.lo   hi == IF two /\ c.lo[1].v > c.hi[1].v THEN c.lo ELSE c.hi IN
    (lo = <<>> \/ (lo[1].k = x.k /\ lo[1].v <= x.v)) /\ (hi = <<>> \/ (hi[1].k = x.k /\ x.v <= hi[1].v))
IpSat(c, x, name) == CASE c.m = "no" -> TRUE
                       [] c.m = "list" -> \E i \in 1..Len(c.l) : c.l[i].raw = -1 \/ c.l[i].raw = x.raw \/ (Names(name) /\ c.l[i].k = x.k /\ c.l[i].v = x.v)
                       [] c.m = "range" -> Names(name) /\ LevIn(c, x)
                       [] c.m = "delta" -> Names(name) /\ LevIn(c, x) /\ (x.v - (IF c.lo[1].v < c.hi[1].v THEN c.lo[1].v ELSE c.hi[1].v)) % c.d = 0
SupSat(c, r) == ~c.on \/ ((\A i \in 1..7 : c.v[i] = -1 \/ c.v[i] = r.n[i]) /\ (c.g = 32 \/ c.g = r.g))
Sat(q, r) == SupSat(q.sup, r) /\ StrSat(q.et, r.et) /\ StrSat(q.nv, r.nv) /\ StrSat(q.tv, r.tv) /\ DateSat(q.dt, r.t)
             /\ IpSat(q.ip1, r.ip[1], r.nv) /\ IpSat(q.ip2, r.ip[2], r.nv) /\ IpSat(q.ip3, r.ip[3], r.nv)
(* ---------------------------------------------------------------- the decision *)
Used == {s \in DOMAIN req : req[s].used /\ rng[1] <= s /\ s <= rng[2]}
RECURSIVE Verdict(_, _)
Verdict(s, r) == IF s > rng[2] THEN IF \E u \in Used : req[u].des THEN 0 ELSE 1
                 ELSE IF s \in Used /\ Sat(req[s], r) THEN IF req[s].des THEN s + 1 ELSE 0 ELSE Verdict(s + 1, r)
Match(r) == IF off THEN 1 ELSE Verdict(rng[1], r)
(* ids of the records a search for the name nv (<<>>: any) finds *)
Found(nv) == {i \in DOMAIN recs : (nv = <<>> \/ recs[i].nv = nv) /\ Match(recs[i]) # 0}
(* ---------------------------------------------------------------- transitions *)
Accepts(s, des, n) == s \in 0..(Max - 1) /\ n \in 1..MaxList /\ (req[s].used => req[s].des = des)
Put(s, des, f, c) == req' = [req EXCEPT ![s] = [@ EXCEPT !.used = TRUE, !.des = des, ![f] = c]]
Crit(e) == IF e.op = "str" THEN [None EXCEPT !.m = "list", !.l = e.l] ELSE [m |-> e.m, l |-> e.l, lo |-> e.lo, hi |-> e.hi, d |-> e.d]
Select(s, des, e) ==
    IF ~Accepts(s, des, e.n) \/ (e.op = "date" /\ e.m = "bad") THEN e.r = -1 /\ UNCHANGED req
    ELSE e.r = 0 /\ Put(s, des, e.f, IF e.op = "sup" THEN [on |-> TRUE, v |-> e.v, g |-> e.g] ELSE Crit(e))
Sel(e) == (IF e.b THEN Select(bun.n, bun.des, e) ELSE Select(e.s, e.des, e)) /\ UNCHANGED <<rng, off, bun, recs>>
Fields == <<"nv", "tv", "et", "dt", "ip1", "ip2", "ip3">>
ResetReq(q, keep) == LET k(i, f) == IF keep[i] THEN q[f] ELSE None IN
    [Blank EXCEPT !.nv = k(1, "nv"), !.tv = k(2, "tv"), !.et = k(3, "et"), !.dt = k(4, "dt"), !.ip1 = k(5, "ip1"), !.ip2 = k(6, "ip2"), !.ip3 = k(7, "ip3")]
Reset(e) == (IF e.s \in 0..(Max - 1) THEN e.r = 0 /\ req' = [req EXCEPT ![e.s] = ResetReq(@, e.keep)] ELSE e.r = -1 /\ UNCHANGED req)
            /\ UNCHANGED <<rng, off, bun, recs>>
Group(e) == (IF e.a \in 0..(Max - 1) /\ e.z \in e.a..(Max - 1) THEN e.r = 0 /\ rng' = <<e.a, e.z>> ELSE e.r = -1 /\ UNCHANGED rng) /\ UNCHANGED <<req, off, bun, recs>>
Switch(e) == e.r = (IF off THEN 1 ELSE 0) /\ off' = (e.op = "off") /\ UNCHANGED <<req, rng, bun, recs>>
Sense(e) == bun' = [n |-> bun.n + 1, des |-> e.op = "desire"] /\ e.r = (IF bun.n + 1 < Max THEN 0 ELSE -1) /\ UNCHANGED <<req, rng, off, recs>>
Cleared == req' = [s \in 0..(Max - 1) |-> Blank] /\ rng' = <<0, Max - 1>> /\ bun' = [n |-> -1, des |-> TRUE]
FInit == req = [s \in 0..(Max - 1) |-> Blank] /\ rng = <<0, Max - 1>> /\ bun = [n |-> -1, des |-> TRUE] /\ off = FALSE /\ recs = << >>
=============================================================================
