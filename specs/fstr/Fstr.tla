-------------------------------- MODULE Fstr --------------------------------
(* Fortran (blank padded) and C (null terminated) strings.
   State: mem = fixed-size byte buffers (slot k has Size[k] bytes), cs = the C_STRING handles.
   A Fortran variable of length n is the first n bytes of a slot.                          *)
EXTENDS Naturals, Integers, Sequences, Json, TLC
CONSTANTS Size, NH
VARIABLES mem, cs
vars == <<mem, cs>>
Fill(n, b) == [i \in 1..n |-> b]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Nul(_, _), Trim(_)
Nul(s, n) == IF n <= 0 \/ s = <<>> THEN <<>> ELSE IF Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o Nul(Tail(s), n - 1)   \* up to n bytes, or the null
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 32 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Trim0(_)
Trim0(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in {32, 0} THEN Trim0(SubSeq(s, 1, Len(s) - 1)) ELSE s
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Over(d, s) == s \o SubSeq(d, Len(s) + 1, Len(d))                 \* s written over the start of d
(* trimmed copy: result, destination *)
Copy(src, lsrc, dst, ldst, pad) ==
  LET t == Trim(Nul(src, lsrc)) n == Len(t)
  IN IF n > ldst \/ (pad = 0 /\ n = ldst) THEN [r |-> -1, d |-> dst]
     ELSE [r |-> n, d |-> Over(dst, t \o (IF pad = 0 THEN <<0>> ELSE Fill(ldst - n, pad)))]
TrimLen(src, lsrc) == Len(Trim(Nul(src, lsrc)))
(* arrays of strings: items of one big Fortran variable against one buffer per item (slot k + 1 for item k); the first item that does not fit stops *)
RECURSIVE ToC(_, _, _, _, _, _)
ToC(m, f, ls, ld, k, n) == IF k > n THEN [r |-> 0, m |-> m]
   ELSE LET c == Copy(SubSeq(m[f], ls * (k - 1) + 1, Len(m[f])), ls, m[k + 1], ld, 0)
        IN IF c.r < 0 THEN [r |-> -1, m |-> m] ELSE ToC([m EXCEPT ![k + 1] = c.d], f, ls, ld, k + 1, n)
RECURSIVE ToF(_, _, _, _, _, _)
ToF(m, f, ls, ld, k, n) == IF k > n THEN [r |-> 0, m |-> m]
   ELSE LET c == Copy(m[k + 1], ls, SubSeq(m[f], ld * (k - 1) + 1, ld * k), ld, 32)
        IN IF c.r < 0 THEN [r |-> -1, m |-> m]
           ELSE ToF([m EXCEPT ![f] = SubSeq(@, 1, ld * (k - 1)) \o c.d \o SubSeq(@, ld * k + 1, Len(@))], f, ls, ld, k + 1, n)
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Upper(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Case(up, s, ls, ld) == [i \in 1..ld |-> IF i > ls THEN 32 ELSE IF up THEN Upper(s[i]) ELSE Lower(s[i])]
F2C(src, lf, n) == IF n < 1 THEN <<>> ELSE Take(SubSeq(src, 1, lf), n - 1) \o <<0>>
C2F(src, n, lf) == LET t == Take(Nul(src, n), lf) IN t \o Fill(lf - Len(t), 32)
(* C_STRING handles: [st |-> "null"/"own"/"alias", cap |-> size, txt |-> known leading bytes, of |-> the handle that owns the storage] *)
H0 == [st |-> "null", cap |-> 0, txt |-> <<>>, of |-> 0]
Text(h) == IF cs[h].st = "alias" THEN cs[cs[h].of].txt ELSE cs[h].txt
Alloc(h, n) == IF cs[h].st = "null" THEN [ok |-> TRUE, h |-> [st |-> "own", cap |-> n + 1, txt |-> <<>>, of |-> h]]
               ELSE IF cs[h].cap >= n + 1 THEN [ok |-> TRUE, h |-> cs[h]]
               ELSE IF cs[h].st = "own" THEN [ok |-> TRUE, h |-> [st |-> "own", cap |-> n + 1, txt |-> <<>>, of |-> h]]
               ELSE [ok |-> FALSE, h |-> cs[h]]
HasAlias(h) == \E k \in 1..NH : k # h /\ cs[k].st = "alias" /\ cs[k].of = h
Init0 == [mem |-> [k \in 1..Len(Size) |-> Fill(Size[k], 0)], cs |-> [h \in 1..NH |-> H0]]
TypeOK == \A k \in 1..Len(Size) : Len(mem[k]) = Size[k]
M(k, v) == [mem |-> [mem EXCEPT ![k] = v], cs |-> cs]
Same == [mem |-> mem, cs |-> cs]
H(h, v) == [mem |-> mem, cs |-> [cs EXCEPT ![h] = v]]
Apply(a) ==
  CASE a.op = "set"   -> [s |-> M(a.d, a.v), r |-> 0]
    [] a.op = "copy"  -> LET c == Copy(mem[a.s], a.ls, mem[a.d], a.ld, a.pad) IN [s |-> M(a.d, c.d), r |-> c.r]
    [] a.op = "len"   -> [s |-> Same, r |-> TrimLen(mem[a.s], a.ls)]
    [] a.op = "ftnlen" -> [s |-> Same, r |-> Len(Trim0(SubSeq(mem[a.s], 1, a.ls)))]
    [] a.op = "toc"   -> IF a.n <= 0 THEN [s |-> Same, r |-> -1] ELSE LET x == ToC(mem, a.s, a.ls, a.ld, 1, a.n) IN [s |-> [mem |-> x.m, cs |-> cs], r |-> x.r]
    [] a.op = "tof"   -> IF a.n <= 0 THEN [s |-> Same, r |-> -1] ELSE LET x == ToF(mem, a.d, a.ls, a.ld, 1, a.n) IN [s |-> [mem |-> x.m, cs |-> cs], r |-> x.r]
    [] a.op = "case"  -> [s |-> M(a.d, Over(mem[a.d], Case(a.up, mem[a.s], a.ls, a.ld))), r |-> 0]
    [] a.op = "f2c"   -> [s |-> M(a.d, Over(mem[a.d], F2C(mem[a.s], a.ls, a.n))), r |-> 0]
    [] a.op = "c2f"   -> [s |-> M(a.d, Over(mem[a.d], C2F(mem[a.s], a.n, a.ld))), r |-> 0]
    [] a.op = "fcstr" -> [s |-> Same, r |-> (IF a.asis = 1 THEN SubSeq(mem[a.s], 1, a.ls) ELSE Trim(SubSeq(mem[a.s], 1, a.ls))) \o <<0>>]
    [] a.op = "view"  -> [s |-> Same, r |-> Nul(mem[a.s], IF a.n < 0 THEN Len(mem[a.s]) ELSE a.n)]
    [] a.op = "hnew"  -> LET x == Alloc(a.h, a.n) IN [s |-> H(a.h, x.h), r |-> <<x.ok, x.h.st # "null", x.h.st = "own", x.h.cap>>]
    [] a.op = "hdup"  -> LET x == Alloc(a.h, a.ls) t == SubSeq(mem[a.s], 1, a.ls) c2 == [cs EXCEPT ![a.h] = x.h] o == x.h.of
                         IN [s |-> [mem |-> mem, cs |-> IF x.ok THEN [c2 EXCEPT ![o].txt = Over(@, t)] ELSE cs], r |-> <<x.ok, x.h.st # "null", x.h.st = "own", x.h.cap>>]
    [] a.op = "hclone" -> IF cs[a.h].st = "null" THEN [s |-> H(a.d, H0), r |-> <<FALSE, FALSE, FALSE, 0>>]
                          ELSE [s |-> H(a.d, [st |-> "alias", cap |-> cs[a.h].cap, txt |-> <<>>, of |-> cs[a.h].of]), r |-> <<TRUE, TRUE, FALSE, cs[a.h].cap>>]
    [] a.op = "hdel"  -> IF cs[a.h].st = "own" THEN [s |-> H(a.h, H0), r |-> <<TRUE, FALSE, FALSE, 0>>]
                         ELSE [s |-> Same, r |-> <<TRUE, cs[a.h].st # "null", FALSE, cs[a.h].cap>>]
    [] a.op = "hget"  -> [s |-> Same, r |-> Text(a.h)]
    [] a.op = "l2i"   -> [s |-> Same, r |-> [i \in 1..Len(a.v) |-> IF a.v[i] = 0 THEN 0 ELSE 1]]
(* uses that would leave a dangling handle are the caller's error and outside the model *)
Legal(a) == CASE a.op = "hdel" -> ~HasAlias(a.h)
              [] a.op \in {"hnew", "hdup"} -> ~(HasAlias(a.h) /\ cs[a.h].cap < (IF a.op = "hnew" THEN a.n ELSE a.ls) + 1)
              [] a.op = "hclone" -> a.h # a.d /\ ~HasAlias(a.d)
              [] a.op = "hget" -> cs[a.h].st # "null"
              [] OTHER -> TRUE
Set(x) == mem' = x.mem /\ cs' = x.cs
=============================================================================
