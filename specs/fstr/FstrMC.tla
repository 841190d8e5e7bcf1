------------------------------- MODULE FstrMC -------------------------------
EXTENDS Fstr
CONSTANTS Alpha, Depth, MaxLen
VARIABLES last, hist
MSize == <<2, 3>>
GSize == <<1, 6, 8, 12, 16, 40>>
NS == Len(Size)
Lens(k) == 0..Size[k]
Ops == {[op |-> "set", d |-> k, v |-> v] : k \in 1..NS, v \in UNION {[1..Size[j] -> Alpha] : j \in 1..NS}}
   \cup {[op |-> "copy", s |-> s, ls |-> ls, d |-> d, ld |-> ld, pad |-> p] : s \in 1..NS, d \in 1..NS, ls \in 0..MaxLen, ld \in 0..MaxLen, p \in {0, 32}}
   \cup {[op |-> "case", up |-> u, s |-> s, ls |-> ls, d |-> d, ld |-> ld] : u \in BOOLEAN, s \in 1..NS, d \in 1..NS, ls \in 0..MaxLen, ld \in 0..MaxLen}
   \cup {[op |-> "f2c", s |-> s, ls |-> ls, d |-> d, n |-> n] : s \in 1..NS, d \in 1..NS, ls \in 0..MaxLen, n \in 0..MaxLen}
   \cup {[op |-> "c2f", s |-> s, n |-> n, d |-> d, ld |-> ld] : s \in 1..NS, d \in 1..NS, n \in 0..MaxLen, ld \in 0..MaxLen}
HOps == {[op |-> "hnew", h |-> h, n |-> n] : h \in 1..NH, n \in 0..2}
   \cup {[op |-> "hdup", h |-> h, s |-> k, ls |-> n] : h \in 1..NH, k \in 1..NS, n \in {0, 2}}
   \cup {[op |-> "hclone", h |-> h, d |-> d] : h \in 1..NH, d \in 1..NH}
   \cup {[op |-> o, h |-> h] : o \in {"hdel", "hget"}, h \in 1..NH}
Ok(a) == /\ ("s" \in DOMAIN a /\ "ls" \in DOMAIN a => a.ls <= Size[a.s])
         /\ ("d" \in DOMAIN a /\ "ld" \in DOMAIN a => a.ld <= Size[a.d])
         /\ (a.op = "set" => Len(a.v) = Size[a.d])
         /\ (a.op = "f2c" => a.n <= Size[a.d])  /\ (a.op = "c2f" => a.n <= Size[a.s])
         /\ ("s" \in DOMAIN a /\ "d" \in DOMAIN a => a.s # a.d)
         /\ Legal(a)
MInit == mem = Init0.mem /\ cs = Init0.cs /\ last = [a |-> [op |-> "none"]] /\ hist = <<>>
Do(a) == Ok(a) /\ LET x == Apply(a) IN Set(x.s) /\ last' = [a |-> a, r |-> x.r]
MNext == \E a \in Ops : Do(a) /\ hist' = <<>>
HNext == \E a \in HOps : Do(a) /\ hist' = <<>>
View == vars
HView == cs
(* the guarantees *)
Str(s, n) == Trim(Nul(s, n))
Faithful == [][last'.a.op = "copy" /\ last'.r >= 0 => Str(mem'[last'.a.d], last'.a.ld) = Str(mem[last'.a.s], last'.a.ls)]_<<mem, cs, last>>
RefuseOnlyShort == [][last'.a.op = "copy" /\ last'.r < 0 => mem' = mem /\ Len(Str(mem[last'.a.s], last'.a.ls)) + (IF last'.a.pad = 0 THEN 1 ELSE 0) > last'.a.ld]_<<mem, cs, last>>
Bounded == [][\A k \in 1..NS : \A i \in 1..Size[k] : mem'[k][i] # mem[k][i] => "d" \in DOMAIN last'.a /\ last'.a.d = k
                 /\ (last'.a.op \in {"copy", "case", "c2f"} => i <= last'.a.ld) /\ (last'.a.op = "f2c" => i <= last'.a.n)]_<<mem, cs, last>>
Padded == [][(last'.a.op = "copy" /\ last'.a.pad = 32 /\ last'.r >= 0) => \A i \in last'.r + 1..last'.a.ld : mem'[last'.a.d][i] = 32]_<<mem, cs, last>>
AliasLive == \A h \in 1..NH : cs[h].st = "alias" => cs[cs[h].of].st = "own" /\ cs[cs[h].of].cap = cs[h].cap
(* generator *)
Rnd(S) == TLCEval(RandomElement(S))
RBytes(n) == TLCEval([i \in 1..n |-> RandomElement({0, 32, 32, 65, 97, 122, 255, 66})])
GAct == \E o \in {Rnd({"set", "copy", "copy2", "len", "ftnlen", "toc", "tof", "case", "f2c", "c2f", "fcstr", "view", "hnew", "hdup", "hdup2", "hclone", "hdel", "hget"})} :
   \E s \in {Rnd(1..NS)} : \E d \in {Rnd(1..NS)} : \E h \in {Rnd(1..NH)} : \E g \in {Rnd(1..NH)} :
   \E ls \in {Rnd(0..Size[s])} : \E ld \in {Rnd(0..Size[d])} : \E it \in {Rnd(0..3)} :
   \E a \in { CASE o = "set" -> [op |-> "set", d |-> d, v |-> RBytes(Size[d])]
                [] o \in {"copy", "copy2"} -> [op |-> "copy", s |-> s, ls |-> ls, d |-> d, ld |-> ld, pad |-> Rnd({0, 32})]
                [] o \in {"len", "ftnlen"} -> [op |-> o, s |-> s, ls |-> ls]
                [] o = "toc" -> [op |-> "toc", s |-> 6, ls |-> Rnd(0..8), ld |-> Rnd(0..6), n |-> it]
                [] o = "tof" -> [op |-> "tof", d |-> 6, ls |-> Rnd(0..6), ld |-> Rnd(0..8), n |-> it]
                [] o = "case" -> [op |-> "case", up |-> Rnd(BOOLEAN), s |-> s, ls |-> ls, d |-> d, ld |-> ld]
                [] o = "f2c" -> [op |-> "f2c", s |-> s, ls |-> ls, d |-> d, n |-> ld]
                [] o = "c2f" -> [op |-> "c2f", s |-> s, n |-> ls, d |-> d, ld |-> ld]
                [] o = "fcstr" -> [op |-> "fcstr", s |-> s, ls |-> ls, asis |-> Rnd({-1, 0, 1})]
                [] o = "view" -> [op |-> "view", s |-> s, n |-> ls]
                [] o = "hnew" -> [op |-> "hnew", h |-> h, n |-> ls]
                [] o \in {"hdup", "hdup2"} -> [op |-> "hdup", h |-> h, s |-> s, ls |-> ls]
                [] o = "hclone" -> [op |-> "hclone", h |-> h, d |-> g]
                [] o \in {"hdel", "hget"} -> [op |-> o, h |-> h] } :
     IF Ok(a) THEN Do(a) /\ hist' = Append(hist, a) ELSE UNCHANGED <<mem, cs, last>> /\ hist' = hist
GNext == Len(hist) < Depth /\ GAct
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
