------------------------------- MODULE ClibMC -------------------------------
EXTENDS Clib
CONSTANTS Depth, GDepth
VARIABLES d, hist
Names == {"a", "b"}
Paths1 == {[abs |-> x, c |-> c] : x \in {FALSE}, c \in {<<n>> : n \in Names} \cup {<<m, n>> : m \in Names, n \in Names} \cup {<<"a", "b", "a">>}}
Op1 == {"mkdir", "mkdir_r", "rmdir", "unlink", "remove"}
Acts == [op : Op1, abs : {FALSE}, c : {p.c : p \in Paths1}] \cup [op : {"mkfile"}, abs : {FALSE}, c : {p.c : p \in Paths1}, m : {420}, s : {3}]
        \cup [op : {"symlink"}, abs : {FALSE}, c : {<<"a">>, <<"b">>, <<"a", "b">>}, t : {<<"a">>, <<"b">>, <<"b", "a">>}]
        \cup [op : {"rename"}, abs : {FALSE}, c : {p.c : p \in Paths1}, to : Paths1]
MInit == fs = FS0 /\ cwd = <<>> /\ env = << >> /\ ctx = [root |-> FALSE, plen |-> 10] /\ d = 0 /\ hist = <<>>
MNext == d < Depth /\ d' = d + 1 /\ \E a \in Acts : fs' = Apply(a).fs /\ UNCHANGED <<cwd, env, ctx, hist>>
View == <<fs, d>>
(* a tree is a tree: every node has a directory above it; leaves only are files, links and fifos *)
Tree == <<>> \in DOMAIN fs /\ \A x \in DOMAIN fs : x # <<>> => FrontOf(x) \in DOMAIN fs /\ fs[FrontOf(x)].k = "d"
(* a refused operation changes nothing (mkdir_r may have made leading directories) *)
NoSideEffect == \A a \in Acts : a.op # "mkdir_r" /\ Apply(a).r = ERR => Apply(a).fs = fs
(* what each success means *)
Post == \A a \in Acts : Apply(a).r = OK => LET s == Apply(a).fs IN
     CASE a.op = "mkdir" -> WalkIn(s, <<>>, a.c, 40, FALSE).st = "found" /\ s[WalkIn(s, <<>>, a.c, 40, FALSE).p].k = "d"
       [] a.op = "mkdir_r" -> WalkIn(s, <<>>, a.c, 40, TRUE).st = "found" /\ s[WalkIn(s, <<>>, a.c, 40, TRUE).p].k = "d" /\ DOMAIN fs \subseteq DOMAIN s
       [] a.op \in {"rmdir", "unlink", "remove"} -> WalkIn(s, <<>>, a.c, 40, FALSE).st # "found" /\ Cardinality(DOMAIN s) = Cardinality(DOMAIN fs) - 1
       [] a.op = "rename" -> WalkIn(s, <<>>, a.to.c, 40, FALSE).st = "found" \/ fs[Res(a, FALSE).p].k = "l" \/ \E x \in DOMAIN fs : fs[x].k = "l"
       [] OTHER -> TRUE
(* generator *)
Rnd(S) == TLCEval(RandomElement(S))
GN == {"a", "ab", "b", "c1"}
RPath(z) == [abs |-> Rnd(1..4) = 1, c |-> CASE Rnd(1..6) <= 3 -> <<Rnd(GN)>> [] Rnd(1..2) = 1 -> <<Rnd(GN \cup {"p"}), Rnd(GN)>> [] OTHER -> <<Rnd({"p", "a", "b"}), Rnd({"q", "a", "."}), Rnd(GN)>>]
QP(z) == CASE Rnd(1..5) = 1 -> [abs |-> FALSE, c |-> <<Rnd({".", "p"}), Rnd({"q", "."})>>] [] OTHER -> RPath(z)
With2(p, x) == [abs |-> p.abs, c |-> p.c] @@ x
GAct == \E o \in {Rnd({"mkdir", "mkdir_r", "rmdir", "unlink", "remove", "rename", "rename", "symlink", "symlink", "mkfile", "mkfile", "mkfifo", "chdir", "query", "query", "query", "text", "text", "glob"})} :
        \E p \in {TLCEval(RPath(d))}, q \in {TLCEval(RPath(d))}, u \in {TLCEval(QP(d))} :
        \E a \in { CASE o \in {"mkdir", "mkdir_r", "rmdir", "unlink", "remove"} -> With2(p, [op |-> o])
                     [] o = "rename" -> With2(p, [op |-> o, to |-> q])
                     [] o = "symlink" -> With2(p, [op |-> o, t |-> q.c])
                     [] o = "mkfile" -> With2(p, [op |-> o, m |-> Rnd({0, 73, 128, 256, 292, 420, 493}), s |-> Rnd(0..40)])
                     [] o = "mkfifo" -> With2(p, [op |-> o, m |-> 420])
                     [] o = "chdir" -> With2(Rnd({[abs |-> TRUE, c |-> <<>>], [abs |-> TRUE, c |-> <<"p">>], [abs |-> TRUE, c |-> <<"p", "q">>], [abs |-> FALSE, c |-> <<"a">>], [abs |-> FALSE, c |-> <<"zz">>]}), [op |-> o])
                     [] o = "query" -> With2(u, [op |-> Rnd({"exist", "isreadok", "iswriteok", "isexecok", "isdir", "isfile", "isfifo", "islink", "size", "mtime", "stat"})])
                     [] o = "text" -> With2(u, [op |-> Rnd({"getcwd", "realpath", "readlink"}), len |-> Rnd({1, 3, 5, 80, 200, 1200})])
                     [] o = "glob" -> [op |-> "glob", abs |-> FALSE, c |-> Rnd({<<>>, <<"p">>, <<"a">>, <<"p", "q">>}), prefix |-> Rnd({"", "a", "ab", "c"}), max |-> Rnd({1, 2, 50}), len |-> Rnd({2, 5, 80})] } :
          LET x == Apply(a) IN
          IF o = "chdir" /\ x.r = OK /\ ~(Res(a, TRUE).p \in {<<>>, <<"p">>, <<"p", "q">>}) THEN UNCHANGED <<fs, cwd, hist>>      \* stays in directories that are never removed
          ELSE fs' = x.fs /\ cwd' = CwdAfter(a, x.r) /\ hist' = Append(hist, a)
GInit == fs = ((<<"p">> :> Dir) @@ (<<"p", "q">> :> Dir) @@ FS0) /\ cwd = <<>> /\ env = << >> /\ ctx = [root |-> FALSE, plen |-> 10] /\ d = 0 /\ hist = <<>>
GNext == Len(hist) < GDepth /\ d' = d + 1 /\ UNCHANGED <<env, ctx>> /\ GAct
Emit == Len(hist) < GDepth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
