--------------------------------- MODULE WB ---------------------------------
(* White boards (src/whiteboard): dictionaries of typed entries with their own policies of change, the checkpoint of the
   permanent board, and files of directives. Names are sequences of characters; values are shown as strings (characters
   without trailing blanks, numbers in base 16); "?" stands for a value that a refused change may have spoilt.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES bd,      \* boards: 0 (permanent) and others -> names -> entries
          files,   \* checkpoint files: number -> contents of board 0
          cur      \* the checkpoint file in use
wv == <<bd, files, cur>>
Keep == UNCHANGED wv
Has(o, k) == (o \div k) % 2 = 1
REAL == 1  INT == 2  CHAR == 3  BOOL == 4
ATRST == 2048  MANY == 1024  UNTIL == 512  NONE == 256  ONRST == 128  LOCL == 8  CREATE == 1
Conflict(o) == (Has(o, NONE) /\ Has(o, MANY)) \/ (Has(o, NONE) /\ Has(o, UNTIL)) \/ (Has(o, MANY) /\ Has(o, UNTIL))
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Name(s) == [i \in 1..Len(s) |-> Up(s[i])]
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = Name(p)
MaxName == 27
Room(s) == ((s + 39) \div 40) * 40                            \* room kept for a single string
Wd(t, s) == IF t = BOOL /\ s = 1 THEN 4 ELSE s
TypeOK(t, s) == CASE t \in {REAL, INT} -> s \in {4, 8} [] t = BOOL -> s \in {1, 4} [] t = CHAR -> s \in 1..520 [] OTHER -> FALSE
GetTypeOK(t, s) == IF t = CHAR THEN s > 0 ELSE TypeOK(t, s)
Zero(t, s) == IF t = CHAR THEN "" ELSE IF s = 8 THEN "0000000000000000" ELSE "00000000"
Max1(n) == IF n < 1 THEN 1 ELSE n
Min(a, c) == IF a < c THEN a ELSE c
Entry(t, s, n, o) == [t |-> t, s |-> IF t = CHAR /\ n = 0 THEN Room(s) ELSE Wd(t, s), n |-> n, ro |-> Has(o, NONE), many |-> Has(o, MANY), until |-> Has(o, UNTIL),
    local |-> Has(o, LOCL), onrst |-> Has(o, ONRST), atrst |-> Has(o, ATRST), init |-> FALSE, bad |-> FALSE, rst |-> FALSE, v |-> [i \in 1..Max1(n) |-> Zero(t, Wd(t, s))]]
B(x, k) == IF x THEN k ELSE 0
Flags(e) == B(e.n > 0, 4096) + B(e.rst, 4) + B(e.ro, NONE) + B(e.bad, 32) + B(e.local, LOCL) + B(e.until, UNTIL) + B(e.many, MANY) + B(e.onrst, ONRST)
            + B(e.atrst, ATRST) + (IF e.init THEN 64 ELSE 2)
Bits == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Sel(e, mask) == mask = -1 \/ \E k \in Bits : Has(Flags(e), k) /\ Has(mask, k)
With(m, nm, e) == [x \in DOMAIN m \cup {nm} |-> IF x = nm THEN e ELSE m[x]]
Valid(w) == w \in DOMAIN bd
SetB(w, m) == bd' = [bd EXCEPT ![w] = m] /\ UNCHANGED <<files, cur>>
Spoilt(e) == [e EXCEPT !.bad = TRUE, !.v = [i \in DOMAIN @ |-> "?"]]
Stored(e, vals) == [e EXCEPT !.bad = FALSE, !.init = TRUE, !.v = [i \in DOMAIN @ |-> IF i <= Len(vals) THEN vals[i] ELSE @[i]]]
Protected(e) == e.ro /\ e.init
Fits(e, vals) == e.t # CHAR \/ \A i \in 1..Len(vals) : Len(vals[i]) <= e.s
RcPut(e, vals, rc) == IF e.t = CHAR THEN (IF e.n = 0 THEN rc = Len(vals[1]) ELSE rc >= 0) ELSE rc = e.n
New(w) == bd' = [x \in DOMAIN bd \cup {w} |-> IF x = w THEN <<>> ELSE bd[x]] /\ UNCHANGED <<files, cur>>
Free(w, rc) == IF Valid(w) THEN rc = 0 /\ bd' = [x \in DOMAIN bd \ {w} |-> bd[x]] /\ UNCHANGED <<files, cur>> ELSE rc < 0 /\ Keep
Put(w, nm0, t, s, n, o, vals, rc) ==
  LET nm == Name(nm0) IN
  IF ~Valid(w) \/ ~TypeOK(t, s) \/ n < 0 \/ Len(nm) > MaxName THEN rc < 0 /\ Keep
  ELSE LET m == bd[w] IN
  IF nm \in DOMAIN m
  THEN LET e == m[nm] IN
       IF Has(o, CREATE) \/ Protected(e) THEN rc < 0 /\ Keep
       ELSE IF (n > 0) # (e.n > 0) \/ t # e.t \/ (t # CHAR /\ e.s # Wd(t, s)) \/ n > e.n
       THEN rc < 0 /\ SetB(w, [m EXCEPT ![nm].bad = TRUE])         \* not changed, but dubious until the next put
       ELSE IF ~Fits(e, vals) THEN rc < 0 /\ SetB(w, [m EXCEPT ![nm] = Spoilt(@)])
       ELSE RcPut(e, vals, rc) /\ SetB(w, [m EXCEPT ![nm] = Stored(@, vals)])
  ELSE IF Conflict(o) THEN rc < 0 /\ Keep
  ELSE LET e == Entry(t, s, n, o) IN
       IF Has(o, CREATE) THEN rc = n /\ SetB(w, With(m, nm, e))
       ELSE RcPut(e, vals, rc) /\ SetB(w, With(m, nm, Stored(e, vals)))
Readable(w, nm, t, s, n) ==
  /\ Valid(w) /\ GetTypeOK(t, s) /\ n >= 0 /\ Valid(w) /\ nm \in DOMAIN bd[w]
  /\ LET e == bd[w][nm] IN e.init /\ ~e.bad /\ e.t = t /\ (t = CHAR \/ e.s = Wd(t, s)) /\ (n > 0) = (e.n > 0)
       /\ (t = CHAR => \A i \in 1..Min(Max1(n), Max1(e.n)) : e.v[i] = "?" \/ Len(e.v[i]) <= s)
(* got: as many values as asked, "U" where nothing was put *)
Get(w, nm0, t, s, n, rc, got) ==
  LET nm == Name(nm0) IN
  /\ Keep
  /\ IF Readable(w, nm, t, s, n)
     THEN LET e == bd[w][nm] k == Min(Max1(n), Max1(e.n)) IN
          \/ rc = e.n /\ Len(got) = Max1(n) /\ \A i \in 1..Len(got) : IF i > k THEN got[i] = "U" ELSE e.v[i] \in {"?", got[i]}
          \/ rc < 0 /\ t = CHAR /\ \E i \in 1..k : e.v[i] = "?"
     ELSE rc < 0
Meta(w, nm0, rc, t, s, n, o) ==
  LET nm == Name(nm0) IN
  /\ Keep
  /\ IF Valid(w) /\ nm \in DOMAIN bd[w]
     THEN LET e == bd[w][nm] IN rc >= 0 /\ t = e.t /\ s = e.s /\ n = e.n /\ o = Flags(e)
     ELSE rc < 0
Keys(w, p, max, width, rc, list) ==
  /\ Keep
  /\ IF ~Valid(w) THEN rc < 0
     ELSE LET S == {nm \in DOMAIN bd[w] : Prefix(p, nm)} IN
          IF Cardinality(S) > max \/ \E nm \in S : Len(nm) > width THEN rc < 0
          ELSE rc = Cardinality(S) /\ Len(list) = rc /\ {list[i] : i \in 1..Len(list)} = S
Check(w, p, mask, rc) ==
  /\ Keep
  /\ IF ~Valid(w) THEN rc < 0 ELSE rc = Cardinality({nm \in DOMAIN bd[w] : Prefix(p, nm) /\ Sel(bd[w][nm], mask)})
(* after: the flags of the entries of the board after the call; a lock that meets an entry without value is refused on the
   way, so that it may have locked some of the others                                                                      *)
Lock(w, p, rc, after) ==
  IF ~Valid(w) THEN rc < 0 /\ Keep
  ELSE LET m == bd[w]
           S == {nm \in DOMAIN m : Prefix(p, nm) /\ m[nm].until}
           L(e) == [e EXCEPT !.ro = TRUE, !.many = FALSE]
           done == {nm \in S : m[nm].init /\ \E i \in 1..Len(after) : after[i].n = nm /\ after[i].o = Flags(L(m[nm]))}
           r == [nm \in DOMAIN m |-> IF nm \in done THEN L(m[nm]) ELSE m[nm]] IN
       /\ IF \A nm \in S : m[nm].init THEN rc = Cardinality(S) /\ done = S ELSE rc < 0
       /\ Len(after) = Cardinality(DOMAIN m)
       /\ \A i \in 1..Len(after) : after[i].n \in DOMAIN m /\ after[i].o = Flags(r[after[i].n])
       /\ SetB(w, r)
(* --- checkpoints ------------------------------------------------------------------------------------------------ *)
Restarted(m) == [nm \in DOMAIN m |-> LET e == m[nm] lock == e.onrst /\ e.init IN
   [e EXCEPT !.ro = (@ /\ ~e.atrst) \/ lock, !.many = @ /\ ~lock, !.init = @ /\ ~e.local, !.bad = @ /\ ~e.local, !.rst = TRUE]]
Checkpoint(rc) == rc = 0 /\ files' = [x \in DOMAIN files \cup {cur} |-> IF x = cur THEN bd[0] ELSE files[x]] /\ UNCHANGED <<bd, cur>>
(* a new process: board 0 comes from the file, explicitly (and then the file has to be there) or at its first use *)
Restart(how, rc) ==
  LET there == cur \in DOMAIN files IN
  /\ IF how = 0 /\ ~there THEN rc < 0 ELSE rc = 0
  /\ bd' = [bd EXCEPT ![0] = IF there THEN Restarted(files[cur]) ELSE <<>>] /\ UNCHANGED <<files, cur>>
Reload(rc) == rc < 0 /\ Keep                                 \* the board is in use
CkName(i, got, rc) == rc = 0 /\ got /\ cur' = i /\ UNCHANGED <<bd, files>>
(* --- files of directives: a sequence of define (D), key = values (K), options (O); mode 0 forbids definitions, mode 2
   wants keys defined in the same file; every key is assigned once                                                          *)
TextOK(e, d) == /\ Len(d.r4) <= Max1(e.n)
                /\ CASE e.t = INT -> d.kind = "i" [] e.t = REAL -> d.kind \in {"i", "r"} [] e.t = BOOL -> d.kind = "l" [] e.t = CHAR -> d.kind = "s" /\ Fits(e, d.st)
Text(e, d) == CASE e.t = INT -> IF e.s = 4 THEN d.i4 ELSE d.i8 [] e.t = REAL -> IF e.s = 4 THEN d.r4 ELSE d.r8 [] e.t = BOOL -> d.l [] OTHER -> d.st
Bad(x) == [x EXCEPT !.err = @ + 1]
Direct(x, d, mode, pk) ==
  LET nm == IF d.k \in {"D", "K"} THEN Name(pk \o d.name) ELSE <<>> IN
  CASE d.k = "O" -> IF d.ok THEN [x EXCEPT !.o = d.o] ELSE Bad(x)
    [] d.k = "D" -> LET o == IF d.own THEN d.o ELSE x.o IN
         IF mode = 0 \/ ~d.ok \/ ~TypeOK(d.t, d.s) \/ Len(nm) > MaxName \/ nm \in DOMAIN x.m \/ Conflict(o) THEN Bad(x)
         ELSE [x EXCEPT !.m = With(@, nm, Entry(d.t, d.s, d.n, o)), !.df = @ \cup {nm}]
    [] d.k = "K" -> IF nm \notin DOMAIN x.m \/ (mode = 2 /\ nm \notin x.df) \/ nm \in x.as THEN Bad(x)
         ELSE LET y == [x EXCEPT !.as = @ \cup {nm}] e == x.m[nm] IN
              IF Protected(e) THEN Bad(y)
              ELSE IF ~TextOK(e, d) THEN Bad([y EXCEPT !.m[nm] = Spoilt(@)])
              ELSE [y EXCEPT !.m[nm] = Stored(@, Text(e, d))]
    [] OTHER -> Bad(x)
Read(w, there, pk, mode, ds, rc) ==
  IF ~Valid(w) \/ ~there THEN rc < 0 /\ Keep
  ELSE LET F[i \in 0..Len(ds)] == IF i = 0 THEN [m |-> bd[w], as |-> {}, df |-> {}, o |-> 0, err |-> 0] ELSE Direct(F[i - 1], ds[i], mode, pk) IN
       \E x \in {F[Len(ds)]} : (IF x.err = 0 THEN rc = 0 ELSE rc < 0) /\ SetB(w, x.m)
WInit == bd = [x \in {0} |-> <<>>] /\ files = <<>> /\ cur = 0
=============================================================================
