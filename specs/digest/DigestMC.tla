------------------------------ MODULE DigestMC ------------------------------
EXTENDS Digest
CONSTANTS Alpha, MaxLen, Depth
VARIABLES m, hist
(* independent definition of a CRC: remainder of the division of the message polynomial (initial value added to its first bits) *)
BitsOf(b, refl) == [i \in 1..8 |-> IF refl THEN (b \div 2^(i - 1)) % 2 ELSE (b \div 2^(8 - i)) % 2]
RECURSIVE MsgBits(_, _)
MsgBits(bs, refl) == IF bs = <<>> THEN <<>> ELSE BitsOf(Head(bs), refl) \o MsgBits(Tail(bs), refl)
WBits(x, w) == LET a == [i \in 1..16 |-> (x[1] \div 2^(16 - i)) % 2] \o [i \in 1..16 |-> (x[2] \div 2^(16 - i)) % 2] IN SubSeq(a, 33 - w, 32)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
PolyBits(v) == IF v.refl THEN Rev(WBits(v.poly, v.w)) ELSE WBits(v.poly, v.w)
InitBits(v, r) == IF v.refl THEN Rev(WBits(r, v.w)) ELSE WBits(r, v.w)
Rem(v, r, bs) ==
  LET n == 8 * Len(bs)  b0 == MsgBits(bs, v.refl) \o [i \in 1..v.w |-> 0]
      ib == InitBits(v, r) p == PolyBits(v)
      b1 == [i \in 1..(n + v.w) |-> IF i <= v.w THEN (b0[i] + ib[i]) % 2 ELSE b0[i]]
      d == FoldLeft(LAMBDA q, k : IF q[k] = 0 THEN q ELSE TLCEval([i \in 1..(n + v.w) |-> IF i = k THEN 0 ELSE IF i > k /\ i <= k + v.w THEN (q[i] + p[i - k]) % 2 ELSE q[i]]),
                    b1, [k \in 1..n |-> k])
      t == SubSeq(d, n + 1, n + v.w)
  IN IF v.refl THEN Rev(t) ELSE t
Kinds == {"crc16", "crc24", "crc32", "ccitt"}
MInit == IsInit /\ m = [k \in Kinds |-> <<>>] /\ hist = [k \in Kinds |-> V[k].init]
MNext == \E k \in Kinds, n \in 1..2 : \E c \in [1..n -> Alpha] :
            /\ Len(m[k]) + n <= MaxLen /\ \A o \in Kinds \ {k} : m[o] = <<>>
            /\ m' = [m EXCEPT ![k] = @ \o c] /\ hist' = [hist EXCEPT ![k] = Upd(V[k], @, c)] /\ UNCHANGED vars
(* whatever the chunking, the register is the remainder of the whole message; and two messages that differ in one byte differ *)
ChunkFree == \A k \in Kinds : m[k] # <<>> => WBits(hist[k], V[k].w) = Rem(V[k], V[k].init, m[k])
Detects == \A k \in Kinds : \A i \in 1..Len(m[k]) : \A b \in Alpha \ {m[k][i]} : Upd(V[k], V[k].init, [m[k] EXCEPT ![i] = b]) # hist[k]
Str(s) == s
ASSUME Md5(<<>>) = <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>
ASSUME Md5(<<97, 98, 99>>) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
ASSUME Crc32(Z, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<52212, 14630>>          \* cbf43926
ASSUME Hmac([i \in 1..16 |-> 11], <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<146, 148, 114, 122, 54, 56, 187, 28, 19, 244, 142, 248, 21, 139, 252, 157>>
ASSUME Crypt(ArcRaw(<<1, 35, 69, 103, 137, 171, 205, 239>>), <<1, 35, 69, 103, 137, 171, 205, 239>>)[2] = <<117, 183, 135, 128, 153, 224, 197, 150>>

(* generator of histories *)
Rnd(S) == TLCEval(RandomElement(S))
RBytes(n) == TLCEval([i \in 1..n |-> RandomElement(0..255)])
Lens == {0, 1, 3, 8, 9, 16, 55, 56, 57, 63, 64, 65, 120}
GenAct == \E o \in {Rnd({"seed", "crc32", "crcne", "ccitt", "mstart", "hstart", "mupd", "mupd", "mfin", "mfin", "md5", "hmac", "asetup", "crypt", "crypt"})} :
          \E n \in {Rnd(Lens)} : \E i \in {Rnd(1..2)} : \E siz \in {Rnd({1, 2, 4, 8})} : \E st \in {Rnd(1..5)} : \E md0 \in {Rnd(0..2)} : \E w \in {Rnd({16, 24, 32, 8})} :
          \E b \in {RBytes(n)} : \E key \in {RBytes(Rnd({1, 5, 16, 63, 64, 65, 80}))} :
          \E a \in { CASE o = "seed" -> [op |-> o, i |-> i, v |-> <<Rnd(0..65535), Rnd(0..65535)>>]
                       [] o = "crc32" -> [op |-> o, i |-> i, b |-> b]
                       [] o = "crcne" -> [op |-> o, i |-> i, w |-> w, siz |-> siz, mode |-> md0, b |-> SubSeq(b, 1, siz * (n \div siz))]
                       [] o = "ccitt" -> [op |-> o, i |-> i, stride |-> st, len |-> n, b |-> b]
                       [] o = "mstart" -> [op |-> o, i |-> i]
                       [] o = "hstart" -> [op |-> o, i |-> i, key |-> key]
                       [] o = "mupd" -> IF md[i].st = "none" THEN [op |-> "hstart", i |-> i, key |-> key] ELSE [op |-> o, i |-> i, b |-> b]
                       [] o = "mfin" -> IF md[i].st = "none" THEN [op |-> "mstart", i |-> i] ELSE [op |-> o, i |-> i]
                       [] o = "md5" -> [op |-> o, b |-> b]
                       [] o = "hmac" -> [op |-> o, key |-> key, b |-> b]
                       [] o = "asetup" -> [op |-> o, i |-> i, key |-> key]
                       [] o = "crypt" -> IF ks[i] = <<>> THEN [op |-> "asetup", i |-> i, key |-> key] ELSE [op |-> o, i |-> i, b |-> b] } :
            Set(Apply(a).s) /\ hist' = Append(hist, a)
GInit == IsInit /\ m = 0 /\ hist = <<>>
GNext == Len(hist) < Depth /\ GenAct /\ UNCHANGED m
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
