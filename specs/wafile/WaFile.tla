------------------------------- MODULE WaFile -------------------------------
(* Unit table (c_fnom/c_fclos), word-addressable files (c_waxxx), direct access blocks (c_readda/c_writda) and byte
   streams (c_sqxxx).  The content of a word file is a sequence of runs: n words of which the first is <<k,b>> (high
   and low half); in a run the low half counts up, except in the constant runs k = 0 (zeros) and k = 65535. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES disk,   \* file -> content: runs (word files) or bytes (streams)
          arc,    \* archive file -> member -> runs
          un,     \* unit -> connection
          da      \* units with a direct access transfer not yet checked
vars == <<disk, arc, un, da>>
MaxHole == 2048
Blk == 512
(* ---- runs ---- *)
Const(k) == k = 0 \/ k = 65535
Adj(x, y) == x.k = y.k /\ (IF Const(x.k) THEN x.b = y.b ELSE y.b = x.b + x.n)
Cat(s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
             ELSE LET x == s[Len(s)] y == t[1]
                  IN IF Adj(x, y) THEN SubSeq(s, 1, Len(s) - 1) \o <<[x EXCEPT !.n = @ + y.n]>> \o Tail(t) ELSE s \o t
Run(k, b, n) == IF n <= 0 THEN <<>> ELSE <<[k |-> k, b |-> b, n |-> n]>>
Sub(x, from, n) == [k |-> x.k, b |-> (IF Const(x.k) THEN x.b ELSE x.b + from), n |-> n]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE s[1].n + Size(Tail(s))
RECURSIVE Take(_, _)
Take(s, n) == IF s = <<>> \/ n <= 0 THEN <<>>
              ELSE IF s[1].n >= n THEN <<Sub(s[1], 0, n)>> ELSE <<s[1]>> \o Take(Tail(s), n - s[1].n)
RECURSIVE Drop(_, _)
Drop(s, n) == IF s = <<>> \/ n <= 0 THEN s
              ELSE IF s[1].n > n THEN <<Sub(s[1], n, s[1].n - n)>> \o Tail(s) ELSE Drop(Tail(s), n - s[1].n)
Zeros(n) == Run(0, 0, n)
Mid(s, adr, n) == Take(Drop(s, adr - 1), n)
\* words seg written at address adr (1-based) over content s; a gap past the end is filled with zeros
Splice(s, adr, seg) == LET z == Size(s) h == IF z < adr - 1 THEN Cat(s, Zeros(adr - 1 - z)) ELSE Take(s, adr - 1)
                       IN Cat(Cat(h, seg), Drop(s, adr - 1 + Size(seg)))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
(* ---- connection table ---- *)
RECURSIVE Top(_)
Top(j) == IF j < 11 THEN 0 ELSE IF j \notin DOMAIN un THEN j ELSE Top(j - 1)
Auto(ftn) == Top(IF ftn THEN 99 ELSE 999)        \* the highest free unit; 0: none
Key(cls, f) == IF cls = "scr" THEN "T/" \o f ELSE f
\* is the connection refused for what it names?
Refused(c) == \/ c.cls = "badscr"
              \/ c.cls = "at" /\ c.f \notin DOMAIN disk
              \/ c.cls = "sub" /\ (IF c.f \notin DOMAIN arc THEN TRUE ELSE c.sub \notin DOMAIN arc[c.f])
              \/ c.cls /= "sub" /\ (c.old \/ c.ro) /\ Key(c.cls, c.f) \notin DOMAIN disk
Content(x) == IF x.sub = "" THEN disk[x.f] ELSE arc[x.f][x.sub]
Put(g, k, v) == [j \in DOMAIN g \cup {k} |-> IF j = k THEN v ELSE g[j]]
Opened(c, isOpen) == [f |-> Key(c.cls, c.f), kind |-> c.kind, ro |-> c.ro \/ c.cls = "sub", open |-> isOpen, wa |-> FALSE, pos |-> 0,
              sub |-> IF c.cls = "sub" THEN c.sub ELSE ""]
Exists(f) == f \in DOMAIN disk
\* c: [u, cls, f, sub, kind, old, ro, low]; low: a Fortran type, its automatic units stop at 99; result [ret, got]
FnomOk(c) == LET u == IF c.u = 0 THEN Auto(c.low) ELSE c.u IN u /= 0 /\ u \notin DOMAIN un /\ ~Refused(c)
Fnom(c, ret, got) ==
   LET u == IF c.u = 0 THEN Auto(c.low) ELSE c.u IN
   IF FnomOk(c) THEN
      /\ ret = 0 /\ got = u
      /\ un' = Put(un, u, Opened(c, TRUE))
      /\ disk' = IF c.cls = "sub" \/ Exists(Key(c.cls, c.f)) THEN disk ELSE Put(disk, Key(c.cls, c.f), <<>>)
      /\ UNCHANGED <<arc, da>>
   ELSE ret < 0 /\ UNCHANGED vars
Fclos(u, ret) == IF u \notin DOMAIN un THEN ret < 0 /\ UNCHANGED vars
                 ELSE ret = 0 /\ un' = [v \in DOMAIN un \ {u} |-> un[v]] /\ UNCHANGED <<disk, arc, da>>
WaName(u) == "Wafile" \o ToString(u)
Waopen(u, ret) ==
   IF u \notin DOMAIN un THEN
      /\ ret > 0
      /\ un' = Put(un, u, [f |-> WaName(u), kind |-> "rnd", ro |-> FALSE, open |-> TRUE, wa |-> TRUE, pos |-> 0, sub |-> ""])
      /\ disk' = IF Exists(WaName(u)) THEN disk ELSE Put(disk, WaName(u), <<>>)
      /\ UNCHANGED <<arc, da>>
   ELSE IF un[u].kind = "ftn" THEN ret < 0 /\ UNCHANGED vars
   ELSE /\ ret > 0
        /\ un' = [un EXCEPT ![u].open = TRUE, ![u].wa = TRUE, ![u].pos = IF un[u].open THEN @ ELSE 0]
        /\ UNCHANGED <<disk, arc, da>>
IsOpen(u) == IF u \in DOMAIN un THEN un[u].open ELSE FALSE
Waclos(u, ret) == IF ~IsOpen(u) THEN ret < 0 /\ UNCHANGED vars
                  ELSE ret = 0 /\ un' = [un EXCEPT ![u].open = FALSE, ![u].wa = FALSE] /\ UNCHANGED <<disk, arc, da>>
(* ---- words ---- *)
Put2(u, c) == IF un[u].sub = "" THEN disk' = [disk EXCEPT ![un[u].f] = c] ELSE FALSE
Wawrit(u, adr, seg, ret) ==
   IF ~IsOpen(u) THEN ret < 0 /\ UNCHANGED vars
   ELSE IF un[u].ro THEN ret < 0 /\ UNCHANGED vars
   ELSE /\ ret = Size(seg)
        /\ Put2(u, Splice(disk[un[u].f], adr, seg))
        /\ UNCHANGED <<arc, un, da>>
\* what reading n words at adr gives: the words there are, possibly fewer (or none: 0 or negative)
Words(u, adr, n) == Mid(Content(un[u]), adr, n)
Waread(u, adr, n, ret, got) ==
   /\ UNCHANGED vars
   /\ IF ~IsOpen(u) THEN ret < 0 /\ got = <<>>
      ELSE LET w == Words(u, adr, n)
           IN /\ IF w = <<>> THEN ret <= 0 ELSE ret = Size(w)
              /\ got = w
Wasize(u, ret, blocks) == /\ UNCHANGED vars
                  /\ IF u \notin DOMAIN un THEN ret < 0 /\ blocks < 0
                     ELSE LET z == Size(Content(un[u])) IN ret = z /\ blocks = (z + 255) \div 256
(* ---- direct access blocks: one unchecked transfer per unit ---- *)
Writda(u, is, seg) ==
   IF u \in da THEN UNCHANGED vars
   ELSE /\ da' = da \cup {u} /\ UNCHANGED <<arc, un>>
        /\ IF IsOpen(u) /\ (IF u \in DOMAIN un THEN ~un[u].ro ELSE FALSE)
           THEN Put2(u, Splice(disk[un[u].f], (is - 1) * Blk + 1, seg)) ELSE UNCHANGED disk
Readda(u, is, n, got) ==
   IF u \in da THEN got = <<>> /\ UNCHANGED vars
   ELSE /\ da' = da \cup {u} /\ UNCHANGED <<disk, arc, un>>
        /\ got = IF IsOpen(u) THEN Words(u, (is - 1) * Blk + 1, n * Blk) ELSE <<>>
Checda(u) == da' = da \ {u} /\ UNCHANGED <<disk, arc, un>>
(* ---- streams of bytes ---- *)
IsStream(u) == IsOpen(u) /\ (IF u \in DOMAIN un THEN un[u].kind = "stream" ELSE FALSE)
Getfdsc(u, ret) == UNCHANGED vars /\ (IF IsStream(u) THEN ret > 0 ELSE ret < 0)
Sqopen(u) == IF u \notin DOMAIN un THEN UNCHANGED vars
             ELSE un' = [un EXCEPT ![u].open = TRUE, ![u].wa = TRUE, ![u].pos = IF un[u].open THEN @ ELSE 0] /\ UNCHANGED <<disk, arc, da>>
Sqclos(u) == IF IsOpen(u) /\ (IF u \in DOMAIN un THEN un[u].wa ELSE FALSE)
             THEN un' = [un EXCEPT ![u].open = FALSE, ![u].wa = FALSE] /\ UNCHANGED <<disk, arc, da>> ELSE UNCHANGED vars
Seek(u, end) == IF ~IsStream(u) THEN UNCHANGED vars
                ELSE un' = [un EXCEPT ![u].pos = IF end THEN Len(disk[un[u].f]) ELSE 0] /\ UNCHANGED <<disk, arc, da>>
\* n items of s bytes; s = 4: words, all or nothing; s = 1: characters, at least one
Sqget(u, n, s, ret, got) ==
   IF ~IsStream(u) THEN ret < 0 /\ got = <<>> /\ UNCHANGED vars
   ELSE LET c == disk[un[u].f] p == un[u].pos k == Min(n * s, Max(Len(c) - p, 0))
        IN /\ got = SubSeq(c, p + 1, p + k)
           /\ IF s = 1 THEN (IF k = 0 THEN ret < 0 ELSE ret = k) ELSE (IF k = n * s THEN ret = n ELSE ret < 0)
           /\ un' = [un EXCEPT ![u].pos = p + k]
           /\ UNCHANGED <<disk, arc, da>>
Sqput(u, b, s, ret) ==
   IF ~IsStream(u) THEN ret < 0 /\ UNCHANGED vars
   ELSE IF un[u].ro THEN ret < 0 /\ UNCHANGED vars
   ELSE LET c == disk[un[u].f] p == un[u].pos
        IN /\ ret = Len(b) \div s
           /\ disk' = [disk EXCEPT ![un[u].f] = SubSeq(c, 1, p) \o b \o SubSeq(c, p + Len(b) + 1, Len(c))]
           /\ un' = [un EXCEPT ![u].pos = p + Len(b)]
           /\ UNCHANGED <<arc, da>>
(* ---- seen from outside ---- *)
Init0 == disk = <<>> /\ arc = <<>> /\ un = <<>> /\ da = {}
Name(u, ret, nm) == UNCHANGED vars /\ (IF u \in DOMAIN un THEN ret = 0 /\ nm = un[u].f ELSE ret < 0)
Remove(f) == \/ (f \in DOMAIN disk) = TRUE /\ disk' = [g \in DOMAIN disk \ {f} |-> disk[g]] /\ UNCHANGED <<arc, un, da>>
             \/ (f \in DOMAIN arc) = TRUE /\ arc' = [g \in DOMAIN arc \ {f} |-> arc[g]] /\ UNCHANGED <<disk, un, da>>
=============================================================================
