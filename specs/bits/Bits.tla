-------------------------------- MODULE Bits --------------------------------
(* Bit slicer and endianness swap (f_bits_put / f_bits_get, swap_buffer_endianness).
   State: NS arrays of NW words, each array the sequence of its bits, most significant bit of the first word first.
   Words are W bits; an operand value is the sequence of its W bits.                                             *)
EXTENDS Naturals, Integers, Sequences, Json, TLC
CONSTANTS W, NW, NS
VARIABLE mem
Zero(n) == [i \in 1..n |-> 0]
Init0 == [s \in 1..NS |-> Zero(W * NW)]
TypeOK == \A s \in 1..NS : Len(mem[s]) = W * NW
Eff(w) == IF w <= 0 THEN 0 ELSE IF w > W THEN W ELSE w            \* effective width of a slice
RECURSIVE SumTo(_, _)
SumTo(ws, k) == IF k = 0 THEN 0 ELSE SumTo(ws, k - 1) + Eff(ws[k])
Total(ws) == SumTo(ws, Len(ws))
Words(n) == (n + W - 1) \div W
Fits(ws) == Words(Total(ws)) <= NW
RECURSIVE Packed(_, _, _)
Packed(ws, vs, k) == IF k > Len(ws) THEN <<>> ELSE SubSeq(vs[k], W - Eff(ws[k]) + 1, W) \o Packed(ws, vs, k + 1)
(* put: the low bits of every value one after the other, the last word padded with zeros, the rest of the array untouched *)
Put(m, ws, vs) == LET p == Packed(ws, vs, 1) n == W * Words(Len(p))
                  IN p \o Zero(n - Len(p)) \o SubSeq(m, n + 1, W * NW)
(* get: slice k is the next Eff(ws[k]) bits, right aligned, zero filled; the array is not changed *)
Get(m, ws) == [k \in 1..Len(ws) |-> LET e == Eff(ws[k]) p == SumTo(ws, k - 1) IN Zero(W - e) \o SubSeq(m, p + 1, p + e)]
(* swap: the four quarters of each of the first n words in reverse order *)
Q == W \div 4
Swap(m, n) == [i \in 1..W * NW |-> LET w == (i - 1) \div W k == (i - 1) % W
                                   IN IF w < n THEN m[W * w + Q * (3 - k \div Q) + (k % Q) + 1] ELSE m[i]]
Apply(m, a) == CASE a.op = "set"  -> [s |-> a.v, r |-> <<>>]
                 [] a.op = "put"  -> [s |-> Put(m, a.ws, a.vs), r |-> <<>>]
                 [] a.op = "get"  -> [s |-> m, r |-> Get(m, a.ws)]
                 [] a.op = "swap" -> [s |-> Swap(m, a.n), r |-> <<>>]
=============================================================================
