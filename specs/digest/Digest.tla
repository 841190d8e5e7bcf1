------------------------------- MODULE Digest -------------------------------
(* Checksums, digests and the stream cipher of the primitives directory.
   State: CRC registers, MD5/HMAC contexts (everything fed so far), ARC4 key streams.
   32-bit words are pairs <<high half, low half>>; bytes are 0..255.            *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise, Json, TLC
CONSTANTS NR, NM, NA
VARIABLES reg, md, ks
vars == <<reg, md, ks>>
Z == <<0, 0>>
Ones == <<65535, 65535>>
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
A2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
O2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
N2(a) == <<65535 - a[1], 65535 - a[2]>>
Add2(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
Shr1(a) == <<a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768>>
Shl1(a) == <<((a[1] * 2) % 65536) + (a[2] \div 32768), (a[2] * 2) % 65536>>
Rot16(h, l, s) == IF s = 0 THEN <<h, l>> ELSE <<((h * 2^s) % 65536) + (l \div 2^(16 - s)), ((l * 2^s) % 65536) + (h \div 2^(16 - s))>>
RotL(x, s) == IF s >= 16 THEN Rot16(x[2], x[1], s - 16) ELSE Rot16(x[1], x[2], s)

(* ---- CRCs: one step per bit. Variants: width, polynomial, initial value, final xor, reflected ---- *)
V == [crc16 |-> [w |-> 16, poly |-> <<0, 40961>>,     init |-> Z,             xo |-> Z,    refl |-> TRUE],   \* 0x8005 reflected
      crc24 |-> [w |-> 24, poly |-> <<134, 19707>>,   init |-> <<183, 1230>>, xo |-> Z,    refl |-> FALSE],  \* 0x864cfb
      crc32 |-> [w |-> 32, poly |-> <<60856, 33568>>, init |-> Ones,          xo |-> Ones, refl |-> TRUE],   \* 0x04c11db7 reflected
      ccitt |-> [w |-> 16, poly |-> <<0, 4129>>,      init |-> Z,             xo |-> Z,    refl |-> FALSE]]  \* 0x1021
Mask(v, x) == IF v.w = 32 THEN x ELSE IF v.w = 24 THEN <<x[1] % 256, x[2]>> ELSE <<0, x[2]>>
Bit(v, r) == IF v.refl THEN (IF r[2] % 2 = 1 THEN X2(Shr1(r), v.poly) ELSE Shr1(r))
             ELSE LET top == IF v.w = 24 THEN (r[1] \div 128) % 2 ELSE IF v.w = 16 THEN r[2] \div 32768 ELSE r[1] \div 32768
                  IN IF top = 1 THEN X2(Mask(v, Shl1(r)), v.poly) ELSE Mask(v, Shl1(r))
In(v, r, b) == IF v.refl THEN X2(r, <<0, b>>) ELSE IF v.w = 24 THEN X2(r, <<b, 0>>) ELSE X2(r, <<0, b * 256>>)
Byte(v, r, b) == Bit(v, Bit(v, Bit(v, Bit(v, Bit(v, Bit(v, Bit(v, Bit(v, In(v, r, b)))))))))
Upd(v, r, bytes) == FoldLeft(LAMBDA acc, b : Byte(v, acc, b), r, bytes)
(* multi-byte items enter most significant byte first (little-endian memory) *)
Stitch(bytes, siz) == [i \in 1..Len(bytes) |-> bytes[siz * ((i - 1) \div siz) + siz - ((i - 1) % siz)]]
CrcNe(old, kind, bytes, siz, mode) ==
   IF kind \notin {16, 24, 32} THEN old
   ELSE LET v == IF kind = 16 THEN V.crc16 ELSE IF kind = 24 THEN V.crc24 ELSE V.crc32
            r == Upd(v, IF mode = 0 THEN v.init ELSE Mask(v, old), Stitch(bytes, siz))
        IN IF mode = 2 THEN X2(r, v.xo) ELSE r
Crc32(old, bytes) == X2(Upd(V.crc32, X2(old, Ones), bytes), Ones)
Strided(bytes, len, stride) == [i \in 1..((len + stride - 1) \div stride) |-> bytes[(i - 1) * stride + 1]]
Ccitt(seed, bytes) == Upd(V.ccitt, Mask(V.ccitt, seed), bytes)

(* ---- MD5 (RFC 1321) and HMAC (RFC 2104) ---- *)
T5 == <<<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
S5 == <<7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21>>
Le(b, o) == <<b[o + 3] + 256 * b[o + 4], b[o + 1] + 256 * b[o + 2]>>
I64 == [i \in 1..64 |-> i - 1]
Md5Step(X, q, i) ==
  LET a == q[1] b == q[2] c == q[3] d == q[4]
      f == IF i < 16 THEN O2(A2(b, c), A2(N2(b), d)) ELSE IF i < 32 THEN O2(A2(d, b), A2(N2(d), c))
           ELSE IF i < 48 THEN X2(b, X2(c, d)) ELSE X2(c, O2(b, N2(d)))
      g == IF i < 16 THEN i ELSE IF i < 32 THEN (5 * i + 1) % 16 ELSE IF i < 48 THEN (3 * i + 5) % 16 ELSE (7 * i) % 16
  IN TLCEval(<<d, Add2(b, RotL(Add2(Add2(a, f), Add2(T5[i + 1], X[g + 1])), S5[i + 1])), b, c>>)
Md5Block(st, blk) == LET X == TLCEval([k \in 1..16 |-> Le(blk, 4 * (k - 1))])
                         e == FoldLeft(LAMBDA q, i : Md5Step(X, q, i), st, I64)
                     IN TLCEval([k \in 1..4 |-> Add2(st[k], e[k])])
Md5Init == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
Pad(m) == LET n == Len(m) z == (119 - (n % 64)) % 64 bl == n * 8
          IN m \o <<128>> \o [i \in 1..z |-> 0] \o <<bl % 256, (bl \div 256) % 256, (bl \div 65536) % 256, 0, 0, 0, 0, 0>>
Bytes4(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Md5(m) == LET p == TLCEval(Pad(m)) nb == Len(p) \div 64
              e == FoldLeft(LAMBDA st, k : Md5Block(st, SubSeq(p, 64 * (k - 1) + 1, 64 * k)), Md5Init, [k \in 1..nb |-> k])
          IN Bytes4(e[1]) \o Bytes4(e[2]) \o Bytes4(e[3]) \o Bytes4(e[4])
KeyPad(key, c) == LET k == IF Len(key) > 64 THEN Md5(key) ELSE key IN [i \in 1..64 |-> (IF i <= Len(k) THEN k[i] ELSE 0) ^^ c]
Hmac(key, m) == Md5(KeyPad(key, 92) \o Md5(KeyPad(key, 54) \o m))

(* ---- ARC4: <<x, y, permutation>>; the first 1024 bytes of every key stream are thrown away ---- *)
Swap2(m, i, j) == [m EXCEPT ![i] = m[j], ![j] = m[i]]
KsNext(k) == LET x == (k[1] + 1) % 256 y == (k[2] + k[3][x + 1]) % 256 IN TLCEval(<<x, y, Swap2(k[3], x + 1, y + 1)>>)
KsByte(k) == k[3][((k[3][k[1] + 1] + k[3][k[2] + 1]) % 256) + 1]
Perm(key) == FoldLeft(LAMBDA q, i : LET j == (q[1] + q[2][i + 1] + key[(i % Len(key)) + 1]) % 256 IN TLCEval(<<j, Swap2(q[2], i + 1, j + 1)>>),
                      <<0, [i \in 1..256 |-> i - 1]>>, [i \in 1..256 |-> i - 1])[2]
Skip(k, n) == FoldLeft(LAMBDA q, i : KsNext(q), k, [i \in 1..n |-> i])
ArcRaw(key) == <<0, 0, Perm(key)>>
ArcSetup(key) == Skip(ArcRaw(key), 1024)
Crypt(k, b) == FoldLeft(LAMBDA q, i : LET n == KsNext(q[1]) IN TLCEval(<<n, Append(q[2], b[i] ^^ KsByte(n))>>), <<k, <<>>>>, [i \in 1..Len(b) |-> i])

(* ---- transitions: [s |-> new states, r |-> result] ---- *)
Init0 == [reg |-> [i \in 1..NR |-> Z], md |-> [i \in 1..NM |-> [st |-> "none", key |-> <<>>, msg |-> <<>>]], ks |-> [i \in 1..NA |-> <<>>]]
IsInit == reg = Init0.reg /\ md = Init0.md /\ ks = Init0.ks
RegTo(i, x) == [reg |-> [reg EXCEPT ![i] = x], md |-> md, ks |-> ks]
MdTo(i, x)  == [reg |-> reg, md |-> [md EXCEPT ![i] = x], ks |-> ks]
KsTo(i, x)  == [reg |-> reg, md |-> md, ks |-> [ks EXCEPT ![i] = x]]
Same == [reg |-> reg, md |-> md, ks |-> ks]
Apply(a) ==
  CASE a.op = "seed"   -> [s |-> RegTo(a.i, a.v), r |-> a.v]
    [] a.op = "crc32"  -> LET x == Crc32(reg[a.i], a.b) IN [s |-> RegTo(a.i, x), r |-> x]
    [] a.op = "crcne"  -> LET x == CrcNe(reg[a.i], a.w, a.b, a.siz, a.mode) IN [s |-> RegTo(a.i, x), r |-> x]
    [] a.op = "ccitt"  -> LET x == Ccitt(reg[a.i], Strided(a.b, a.len, a.stride)) IN [s |-> RegTo(a.i, x), r |-> x]
    [] a.op = "mstart" -> [s |-> MdTo(a.i, [st |-> "md5", key |-> <<>>, msg |-> <<>>]), r |-> <<>>]
    [] a.op = "hstart" -> [s |-> MdTo(a.i, [st |-> "hmac", key |-> a.key, msg |-> <<>>]), r |-> <<>>]
    [] a.op = "mupd"   -> [s |-> MdTo(a.i, [md[a.i] EXCEPT !.msg = @ \o a.b]), r |-> <<>>]
    [] a.op = "mfin"   -> [s |-> MdTo(a.i, [st |-> "none", key |-> <<>>, msg |-> <<>>]),
                           r |-> IF md[a.i].st = "md5" THEN Md5(md[a.i].msg) ELSE Hmac(md[a.i].key, md[a.i].msg)]
    [] a.op = "md5"    -> [s |-> Same, r |-> Md5(a.b)]
    [] a.op = "hmac"   -> [s |-> Same, r |-> Hmac(a.key, a.b)]
    [] a.op = "mfile"  -> [s |-> Same, r |-> IF a.exists THEN <<0>> \o Md5(a.b) ELSE <<1>> \o [i \in 1..16 |-> 0]]
    [] a.op = "asetup" -> [s |-> KsTo(a.i, ArcSetup(a.key)), r |-> <<>>]
    [] a.op = "crypt"  -> LET x == Crypt(ks[a.i], a.b) IN [s |-> KsTo(a.i, x[1]), r |-> x[2]]
Set(x) == reg' = x.reg /\ md' = x.md /\ ks' = x.ks
=============================================================================
