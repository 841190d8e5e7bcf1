-------------------------------- MODULE Clib --------------------------------
(* clib_*: portable wrappers of file, directory, path, environment and character functions.
   State: fs   a tree: path (sequence of names) -> node [k kind, m mode bits, s size, t link target]
          cwd  path of the current directory          env  variables (only those touched)
   ctx = [root: whether run as the super-user, plen: length of the text of the scratch root]
   A path argument is [abs, c] (components, "." and ".." included). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, TLC
VARIABLES fs, cwd, env, ctx
vars == <<fs, cwd, env, ctx>>
Dir == [k |-> "d", m |-> 493, s |-> 0, t |-> <<>>]
FS0 == << >> @@ (<<>> :> Dir)
OK == 1  ERR == -1
FrontOf(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE WalkIn(_, _, _, _, _)
WalkIn(s, cur, cs, fuel, follow) ==
   IF cs = <<>> THEN [st |-> "found", p |-> cur]
   ELSE IF s[cur].k # "d" THEN [st |-> "err", p |-> <<>>]
   ELSE LET h == cs[1] np == Append(cur, h) IN
        IF h = "." THEN WalkIn(s, cur, Tail(cs), fuel, follow)
        ELSE IF h = ".." THEN WalkIn(s, FrontOf(cur), Tail(cs), fuel, follow)
        ELSE IF np \notin DOMAIN s THEN [st |-> IF Len(cs) = 1 THEN "absent" ELSE "err", p |-> np]
        ELSE IF s[np].k = "l" /\ (Len(cs) > 1 \/ follow)
             THEN IF fuel = 0 THEN [st |-> "err", p |-> <<>>] ELSE WalkIn(s, cur, s[np].t \o Tail(cs), fuel - 1, follow)
        ELSE WalkIn(s, np, Tail(cs), fuel, follow)
Walk(cur, cs, fuel, follow) == WalkIn(fs, cur, cs, fuel, follow)
Res(a, follow) == Walk(IF a.abs THEN <<>> ELSE cwd, a.c, 40, follow)
Found(a, follow) == Res(a, follow).st = "found"
Node(a) == fs[Res(a, TRUE).p]
Kids(p) == {x \in DOMAIN fs : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}
Under(p, x) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Without(p) == [x \in (DOMAIN fs) \ {p} |-> fs[x]]
With(p, n) == (p :> n) @@ fs
Bit(m, b) == ((m \div b) % 2) = 1
R(v) == IF v THEN OK ELSE ERR
St(s, v) == [fs |-> s, r |-> v, out |-> 0]
(* -------- file operations: new tree and status *)
Create(a, n) == LET w == Res(a, FALSE) IN IF w.st = "absent" THEN St(With(w.p, n), OK) ELSE St(fs, ERR)
RmDir(w) == IF w.st = "found" /\ w.p # <<>> /\ fs[w.p].k = "d" /\ Kids(w.p) = {} THEN St(Without(w.p), OK) ELSE St(fs, ERR)
Unlink(w) == IF w.st = "found" /\ fs[w.p].k # "d" THEN St(Without(w.p), OK) ELSE St(fs, ERR)
RmAny(w) == IF w.st = "found" /\ fs[w.p].k = "d" THEN RmDir(w) ELSE Unlink(w)
Moved(o, n) == LET keep == {x \in DOMAIN fs : ~Under(o, x) /\ x # n} mov == {x \in DOMAIN fs : Under(o, x)}
                   To(x) == n \o SubSeq(x, Len(o) + 1, Len(x)) IN
               [y \in keep \cup {To(x) : x \in mov} |-> IF y \in keep THEN fs[y] ELSE fs[o \o SubSeq(y, Len(n) + 1, Len(y))]]
Rename(a, b) == LET o == Res(a, FALSE) n == Res(b, FALSE) IN
   IF o.st # "found" \/ n.st = "err" THEN St(fs, ERR)
   ELSE IF o.p = n.p THEN St(fs, OK)
   ELSE IF Under(o.p, n.p) \/ Under(n.p, o.p) THEN St(fs, ERR)
   ELSE IF n.st = "absent" THEN St(Moved(o.p, n.p), OK)
   ELSE IF fs[o.p].k = "d" THEN (IF fs[n.p].k = "d" /\ Kids(n.p) = {} THEN St(Moved(o.p, n.p), OK) ELSE St(fs, ERR))
   ELSE IF fs[n.p].k = "d" THEN St(fs, ERR) ELSE St(Moved(o.p, n.p), OK)
(* create every missing directory of the path; what exists must be a directory *)
RECURSIVE MkdirR(_, _, _)
MkdirR(a, i, s) == IF i > Len(a.c) THEN [fs |-> s, r |-> OK, out |-> 0]
   ELSE LET pre == [abs |-> a.abs, c |-> SubSeq(a.c, 1, i)]
            W(f) == LET start == IF a.abs THEN <<>> ELSE cwd IN WalkIn(s, start, pre.c, 40, f)
        IN CASE W(FALSE).st = "absent" -> MkdirR(a, i + 1, (W(FALSE).p :> Dir) @@ s)
             [] W(TRUE).st = "found" /\ s[W(TRUE).p].k = "d" -> MkdirR(a, i + 1, s)
             [] OTHER -> [fs |-> s, r |-> ERR, out |-> 0]
(* -------- texts *)
RECURSIVE SumLen(_, _)
SumLen(p, i) == IF i > Len(p) THEN 0 ELSE Len(p[i]) + 1 + SumLen(p, i + 1)
AbsLen(p) == ctx.plen + SumLen(p, 1)
RelLen(p) == SumLen(p, 1) - 1
Blank == [blank |-> TRUE]
Text(abs, p, len) == IF (IF abs THEN AbsLen(p) ELSE RelLen(p)) <= len THEN [fs |-> fs, r |-> OK, out |-> [abs |-> abs, c |-> p]] ELSE [fs |-> fs, r |-> ERR, out |-> Blank]
NoText == [fs |-> fs, r |-> ERR, out |-> Blank]
Q(v) == [fs |-> fs, r |-> R(v), out |-> 0]
Starts(n, x) == Len(n) >= Len(x) /\ SubSeq(n, 1, Len(x)) = x
(* entries of directory a.c matched by  <directory>/<prefix>*  *)
Glob(a) == LET w == Walk(cwd, a.c, 40, TRUE)
               hits == IF w.st = "found" /\ fs[w.p].k = "d" THEN {n \in {x[Len(x)] : x \in Kids(w.p)} : Starts(n, a.prefix)} ELSE {}
               paths == {a.c \o <<n>> : n \in hits} IN
   IF hits = {} \/ Cardinality(hits) > a.max THEN [fs |-> fs, r |-> ERR, out |-> [n |-> 0]]
   ELSE IF \E p \in paths : RelLen(p) > a.len THEN [fs |-> fs, r |-> ERR, out |-> [n |-> Cardinality(hits)]]
   ELSE [fs |-> fs, r |-> OK, out |-> [n |-> Cardinality(hits), files |-> paths]]
(* byte strings: last component, and what is before it; trailing blanks do not count *)
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
LastSlash(s) == LET H == {i \in 1..Len(s) : s[i] = 47} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : j <= i
Put(s, len) == IF Len(TrimR(s)) <= len THEN [fs |-> fs, r |-> OK, out |-> TrimR(s)] ELSE [fs |-> fs, r |-> ERR, out |-> <<>>]
Base(a) == LET s == TrimR(a.txt) IN IF s = <<47>> THEN Put(s, a.len) ELSE Put(SubSeq(s, LastSlash(s) + 1, Len(s)), a.len)
DirN(a) == LET s == TrimR(a.txt) k == LastSlash(s) IN CASE k = 0 -> Put(<<46>>, a.len) [] k = 1 -> [fs |-> fs, r |-> ERR, out |-> <<>>]    \* directly under /: documented as an error
              [] OTHER -> Put(SubSeq(s, 1, k - 1), a.len)
Cut(s, n) == SubSeq(s, 1, IF Len(s) > n THEN n ELSE Len(s))
Env(n) == IF n \in DOMAIN env THEN env[n] ELSE <<-1>>
Upto(s, c) == LET H == {i \in 1..Len(s) : s[i] = c} IN IF H = {} THEN Len(s) + 1 ELSE CHOOSE i \in H : \A j \in H : i <= j
GetEnv(a) == LET v == Env(TrimR(a.txt)) IN IF v = <<-1>> THEN [fs |-> fs, r |-> ERR, out |-> <<>>] ELSE LET x == Put(v, a.len) IN x
GetEnvC(a) == LET n == SubSeq(a.txt, 1, Upto(a.txt, 32) - 1) v == Env(n) IN [fs |-> fs, r |-> 0, out |-> IF v = <<-1>> THEN <<>> ELSE TrimR(Cut(v, a.len))]
EnvAfter(a) == LET s == TrimR(a.txt) k == Upto(s, 61) IN
   IF k > Len(s) THEN [n \in (DOMAIN env) \ {s} |-> env[n]] ELSE (SubSeq(s, 1, k - 1) :> SubSeq(s, k + 1, Len(s))) @@ env
(* characters: alnum alpha blank digit lower punct space upper xdigit, then tolower toupper *)
In(c, a, b) == c >= a /\ c <= b
Ct(c) == LET up == In(c, 65, 90) lo == In(c, 97, 122) di == In(c, 48, 57) IN
   << R(up \/ lo \/ di), R(up \/ lo), R(c = 32 \/ c = 9), R(di), R(lo), R(In(c, 33, 126) /\ ~(up \/ lo \/ di)), R(c = 32 \/ In(c, 9, 13)), R(up),
      R(di \/ In(c, 65, 70) \/ In(c, 97, 102)), IF up THEN c + 32 ELSE c, IF lo THEN c - 32 ELSE c >>
Access(a, who) == Found(a, TRUE) /\ LET n == Node(a) IN n.k = "d" \/ (CASE who = "r" -> ctx.root \/ Bit(n.m, 256) [] who = "w" -> ctx.root \/ Bit(n.m, 128)
                                        [] who = "x" -> IF ctx.root THEN Bit(n.m, 1) \/ Bit(n.m, 8) \/ Bit(n.m, 64) ELSE Bit(n.m, 64))
Is(a, k) == Found(a, TRUE) /\ Node(a).k = k
Mtime(n) == 1000000 + 7 * n.s
TypeBits == [d |-> 16384, f |-> 32768, o |-> 4096]
Apply(a) == CASE
     a.op = "mkdir"   -> Create(a, Dir)
  [] a.op = "mkfile"  -> Create(a, [k |-> "f", m |-> a.m, s |-> a.s, t |-> <<>>])              \* the test's own, to populate the tree
  [] a.op = "mkfifo"  -> Create(a, [k |-> "o", m |-> a.m, s |-> 0, t |-> <<>>])
  [] a.op = "symlink" -> Create(a, [k |-> "l", m |-> 511, s |-> 0, t |-> a.t])
  [] a.op = "mkdir_r" -> MkdirR(a, 1, fs)
  [] a.op = "rmdir"   -> RmDir(Res(a, FALSE))
  [] a.op = "unlink"  -> Unlink(Res(a, FALSE))
  [] a.op = "remove"  -> RmAny(Res(a, FALSE))
  [] a.op = "rename"  -> Rename(a, a.to)
  [] a.op = "chdir"   -> Q(Is(a, "d"))
  [] a.op = "exist"   -> Q(Found(a, TRUE))
  [] a.op = "isreadok" -> Q(Access(a, "r"))
  [] a.op = "iswriteok" -> Q(Access(a, "w"))
  [] a.op = "isexecok" -> Q(Access(a, "x"))
  [] a.op = "isdir"   -> Q(Is(a, "d"))
  [] a.op = "isfile"  -> Q(Is(a, "f"))
  [] a.op = "isfifo"  -> Q(Is(a, "o"))
  [] a.op = "islink"  -> Q(Found(a, FALSE) /\ fs[Res(a, FALSE).p].k = "l")
  [] a.op = "size"    -> [fs |-> fs, r |-> IF ~Found(a, TRUE) THEN ERR ELSE IF Node(a).k = "d" THEN 0 ELSE Node(a).s, out |-> 0]       \* directories: whatever the system says (the driver sends 0)
  [] a.op = "mtime"   -> [fs |-> fs, r |-> IF ~Found(a, TRUE) THEN ERR ELSE IF Node(a).k # "f" THEN 0 ELSE Mtime(Node(a)), out |-> 0]
  [] a.op = "stat"    -> [fs |-> fs, r |-> R(Found(a, TRUE)), out |-> IF Found(a, TRUE) THEN LET n == Node(a) IN
                             <<TypeBits[n.k] + n.m, IF n.k = "f" THEN 1 ELSE 0, IF n.k = "f" THEN n.s ELSE 0, IF n.k = "f" THEN Mtime(n) ELSE 0>> ELSE <<>>]
  [] a.op = "getcwd"  -> Text(TRUE, cwd, a.len)
  [] a.op = "realpath" -> IF Found(a, TRUE) THEN Text(TRUE, Res(a, TRUE).p, a.len) ELSE NoText
  [] a.op = "readlink" -> IF Found(a, FALSE) /\ fs[Res(a, FALSE).p].k = "l" THEN Text(FALSE, fs[Res(a, FALSE).p].t, a.len) ELSE NoText
  [] a.op = "glob"    -> Glob(a)
  [] a.op = "basename" -> Base(a)
  [] a.op = "dirname" -> DirN(a)
  [] a.op = "putenv"  -> [fs |-> fs, r |-> OK, out |-> 0]
  [] a.op = "getenv"  -> GetEnv(a)
  [] a.op = "getenvc" -> GetEnvC(a)
  [] a.op = "ctype"   -> [fs |-> fs, r |-> OK, out |-> Ct(a.c)]
CwdAfter(a, r) == IF a.op = "chdir" /\ r = OK THEN Res(a, TRUE).p ELSE cwd
EnvNext(a) == IF a.op = "putenv" THEN EnvAfter(a) ELSE env
=============================================================================
