---------------------------------- MODULE Io ----------------------------------
(* Files of vectors, data sources, the asynchronous reader, protobuf messages  *)
(* and tag maps.  Everything stored is a sequence of bytes (0..255).           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitOf(bytes, k) == (bytes[k \div 8 + 1] \div Pow2[(k % 8) + 1]) % 2              \* bit k of a little endian number
Prefix(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))

(* ------------------------------------------------------------- vector files *)
(* vectors of strings: every string ends with a zero byte *)
EncStrings(v) == FlattenSeq([i \in DOMAIN v |-> v[i] \o <<0>>])
RECURSIVE DecStrings(_, _)
DecStrings(b, cur) == IF b = << >> THEN << >> ELSE IF b[1] = 0 THEN <<cur>> \o DecStrings(Tail(b), << >>) ELSE DecStrings(Tail(b), Append(cur, b[1]))
(* bit vectors: the number of bits in 8 bytes, then the bits in blocks of 512 *)
Blocks(n) == (n + 511) \div 512
BitLen(n) == 8 + 64 * Blocks(n)
Header(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
EncBits(v) == Header(Len(v)) \o [i \in 1 .. 64 * Blocks(Len(v)) |->
                LET b(k) == LET p == 8 * (i - 1) + k + 1 IN IF p <= Len(v) THEN v[p] ELSE 0 IN
                b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)]
BitCount(f) == f[1] + 256 * f[2] + 65536 * f[3]
BitFileOK(f) == Len(f) >= 8 /\ f[4] = 0 /\ f[5] = 0 /\ f[6] = 0 /\ f[7] = 0 /\ f[8] = 0 /\ Len(f) = BitLen(BitCount(f))
DecBits(f) == [i \in 1 .. BitCount(f) |-> BitOf(SubSeq(f, 9 + ((i - 1) \div 8), 9 + ((i - 1) \div 8)), (i - 1) % 8)]
Ones(v) == Cardinality({i \in DOMAIN v : v[i] = 1})

(* saving: what can be stored is stored completely, anything else is reported *)
CanSave(f, bytes) == f # "NODIR" /\ ~(f = "FULL" /\ bytes # << >>)
Stream(p) == (p * 7 + (p \div 251) * 13 + p \div 65521) % 256
Piece(p, n) == [i \in 1 .. n |-> Stream(p + i - 1)]

(* ------------------------------------------------------------------ protobuf *)
(* A varint: groups of seven bits, least significant first, the top bit of a byte says that more follow.
   Values are 64 bit numbers; longer encodings are errors. *)
RECURSIVE VarLen(_, _)
VarLen(m, i) == IF i > Len(m) THEN 0 ELSE IF m[i] < 128 THEN i ELSE VarLen(m, i + 1)       \* position of the last byte, 0 if there is none
VarOK(m) == LET k == VarLen(m, 1) IN k # 0 /\ k <= 10 /\ (k = 10 => m[10] <= 1)
VarBit(m, k, n) == IF k \div 7 + 1 > n THEN 0 ELSE (m[k \div 7 + 1] \div Pow2[(k % 7) + 1]) % 2
FromBits(bit(_)) == [j \in 1 .. 8 |-> LET b(k) == bit(8 * (j - 1) + k) IN b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)]
VarValue(m) == LET n == VarLen(m, 1) IN FromBits(LAMBDA k : VarBit(m, k, n))
ShiftRight(v, s) == FromBits(LAMBDA k : IF k + s > 63 THEN 0 ELSE BitOf(v, k + s))
Small(v) == v[1] + 256 * v[2] + 65536 * v[3]                   \* the value, if it is below 2^24
IsSmall(v) == \A j \in 4 .. 8 : v[j] = 0
Drop(m, k) == SubSeq(m, k + 1, Len(m))
ZigZag(x) == FromBits(LAMBDA k : IF k = 63 THEN BitOf(x, 0) ELSE (BitOf(x, k + 1) + BitOf(x, 0)) % 2)
(* a single precision number widened to double precision; only zero and normal numbers are used *)
Exp32(f) == 2 * (f[4] % 128) + f[3] \div 128
Widen(f) == LET e == IF Exp32(f) = 0 THEN 0 ELSE Exp32(f) - 127 + 1023 IN
            FromBits(LAMBDA k : IF k = 63 THEN BitOf(f, 31) ELSE IF k >= 52 THEN (e \div 2 ^ (k - 52)) % 2 ELSE IF k >= 29 THEN BitOf(f, k - 29) ELSE 0)
(* the fields of a message, up to the first error *)
RECURSIVE Parse(_, _)
Parse(m, acc) ==
    IF m = << >> THEN [ok |-> TRUE, calls |-> acc]
    ELSE IF ~VarOK(m) THEN [ok |-> FALSE, calls |-> acc]
    ELSE LET h == VarValue(m)  id == ShiftRight(h, 3)  wire == h[1] % 8  r == Drop(m, VarLen(m, 1)) IN
         CASE wire = 0 -> IF VarOK(r) THEN Parse(Drop(r, VarLen(r, 1)), Append(acc, [id |-> id, k |-> "int", v |-> VarValue(r)])) ELSE [ok |-> FALSE, calls |-> acc]
           [] wire = 1 -> IF Len(r) >= 8 THEN Parse(Drop(r, 8), Append(acc, [id |-> id, k |-> "num", v |-> SubSeq(r, 1, 8)])) ELSE [ok |-> FALSE, calls |-> acc]
           [] wire = 5 -> IF Len(r) >= 4 THEN Parse(Drop(r, 4), Append(acc, [id |-> id, k |-> "num", v |-> Widen(SubSeq(r, 1, 4))])) ELSE [ok |-> FALSE, calls |-> acc]
           [] wire = 2 -> IF ~VarOK(r) THEN [ok |-> FALSE, calls |-> acc]
                          ELSE LET n == VarValue(r)  s == Drop(r, VarLen(r, 1)) IN
                               IF IsSmall(n) /\ Small(n) <= Len(s) THEN Parse(Drop(s, Small(n)), Append(acc, [id |-> id, k |-> "str", v |-> SubSeq(s, 1, Small(n))])) ELSE [ok |-> FALSE, calls |-> acc]
           [] OTHER -> [ok |-> FALSE, calls |-> acc]
MsgOK(e) == LET p == Parse(e.m, << >>) IN e.ok = p.ok /\ IF p.ok THEN e.calls = p.calls ELSE Len(e.calls) <= Len(p.calls) /\ e.calls = SubSeq(p.calls, 1, Len(e.calls))
VarintOK(e) == e.ok = VarOK(e.m) /\ (e.ok => e.v = VarValue(e.m) /\ e.used = VarLen(e.m, 1))

(* ------------------------------------------------------------------ tag maps *)
CountIn(u, x) == Cardinality({i \in DOMAIN u : u[i] = x})
SameBag(u, v) == Len(u) = Len(v) /\ LET S == ToSet(v) IN IF Cardinality(S) = Len(v) THEN ToSet(u) = S ELSE \A x \in ToSet(u) \cup ToSet(v) : CountIn(u, x) = CountIn(v, x)
Pairs(ks, vs) == [i \in DOMAIN ks |-> <<ks[i], vs[i]>>]
=============================================================================
