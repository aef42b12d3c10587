-------------------------------- MODULE Tools --------------------------------
(* The command line tools.  A tool reads files (sequences of bytes), arguments *)
(* and lines of text, and writes files and lines of text.  Numbers in files    *)
(* are little endian; 32 bit numbers above 2^31-1 appear as -1.                *)
EXTENDS Io, Graph

(* ----------------------------------------------------------- numbers in files *)
Dec32(b) == [i \in 1 .. Len(b) \div 4 |-> IF b[4 * i] >= 128 THEN -1 ELSE b[4 * i - 3] + 256 * b[4 * i - 2] + 65536 * b[4 * i - 1] + 16777216 * b[4 * i]]
Enc32(v) == [j \in 1 .. 4 * Len(v) |-> LET x == v[(j + 3) \div 4] IN
               CASE j % 4 = 1 -> x % 256 [] j % 4 = 2 -> (x \div 256) % 256 [] j % 4 = 3 -> (x \div 65536) % 256 [] OTHER -> x \div 16777216]
Is32(b) == Len(b) % 4 = 0
Chunk(b, k, i) == SubSeq(b, k * (i - 1) + 1, k * i)

(* ------------------------------------------------------------ numbers in text *)
IsDigit(c) == c \in 48 .. 57
IsNum(t) == t # << >> /\ \A i \in DOMAIN t : IsDigit(t[i])
(* a decimal number of at most 20 digits as 9 bytes, and back *)
MulAdd(m, d) == LET
                    f[i \in 0 .. 9] == IF i = 0 THEN d ELSE (m[i] * 10 + f[i - 1]) \div 256
                IN TLCEval([i \in 1 .. 9 |-> (m[i] * 10 + f[i - 1]) % 256])
Mag(t) == FoldLeft(LAMBDA m, c : MulAdd(m, c - 48), [i \in 1 .. 9 |-> 0], t)
DivTen(m) == LET f[i \in 1 .. Len(m) + 1] == IF i = Len(m) + 1 THEN 0 ELSE (f[i + 1] * 256 + m[i]) % 10      \* remainders, from the top
             IN [q |-> TLCEval([i \in 1 .. Len(m) |-> (f[i + 1] * 256 + m[i]) \div 10]), r |-> f[1]]
RECURSIVE DigitsOf(_)
DigitsOf(m) == LET d == DivTen(m) IN IF \A i \in DOMAIN m : d.q[i] = 0 THEN <<48 + d.r>> ELSE Append(DigitsOf(d.q), 48 + d.r)
Negate(m) == LET f[i \in 0 .. Len(m)] == IF i = 0 THEN 1 ELSE (255 - m[i] + f[i - 1]) \div 256 IN TLCEval([i \in DOMAIN m |-> (255 - m[i] + f[i - 1]) % 256])
RECURSIVE Num(_)
Num(t) == IF t = << >> THEN 0 ELSE 10 * Num(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48       \* of at most ten digits, below 2^31
SmallNum(t) == IsNum(t) /\ Len(t) <= 10

Size(t) == CASE t \in {"int8", "uint8"} -> 1 [] t \in {"int16", "uint16"} -> 2 [] t \in {"int32", "uint32", "float32"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"int8", "int16", "int32", "int64"}
Ints == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
Floats == {"float32", "float64"}
Types == Ints \cup Floats \cup {"string"}
(* lines with integers: blanks, a sign, digits *)
RECURSIVE Trim(_)
Trim(t) == IF t # << >> /\ t[1] = 32 THEN Trim(Tail(t)) ELSE t
Body(t) == LET s == Trim(t) IN IF s # << >> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Neg(t) == LET s == Trim(t) IN s # << >> /\ s[1] = 45
Fits(m, neg, ty) == LET n == Size(ty) IN
    /\ \A i \in n + 1 .. 9 : m[i] = 0
    /\ IF ~Signed(ty) THEN neg => \A i \in 1 .. 9 : m[i] = 0
       ELSE m[n] < 128 \/ (neg /\ m[n] = 128 /\ \A i \in 1 .. n - 1 : m[i] = 0)
IntLineOK(t, ty) == IsNum(Body(t)) /\ Len(Body(t)) <= 20 /\ Fits(Mag(Body(t)), Neg(t), ty)
IntBytes(t, ty) == LET m == SubSeq(Mag(Body(t)), 1, Size(ty)) IN IF Neg(t) THEN Negate(m) ELSE m
IntText(b, ty) == IF Signed(ty) /\ b[Len(b)] >= 128 THEN <<45>> \o DigitsOf(Negate(b)) ELSE DigitsOf(b)

(* Floating point numbers with few digits: text n / 10^k with 5^k dividing n is exactly (n / 5^k) / 2^k.             *)
(* These are compared bit by bit; of all others the specification requires that writing and reading them is lossless *)
DotAt(t) == IF \E i \in DOMAIN t : t[i] = 46 THEN CHOOSE i \in DOMAIN t : t[i] = 46 ELSE Len(t) + 1
AllDigits(t) == SubSeq(t, 1, DotAt(t) - 1) \o SubSeq(t, DotAt(t) + 1, Len(t))
Decimals(t) == IF DotAt(t) > Len(t) THEN 0 ELSE Len(t) - DotAt(t)
Five == <<1, 5, 25, 125, 625, 3125, 15625>>
NiceBody(t) == IsNum(AllDigits(t)) /\ Len(AllDigits(t)) <= 9 /\ Decimals(t) <= 6 /\ Num(AllDigits(t)) % Five[Decimals(t) + 1] = 0
               /\ Num(AllDigits(t)) \div Five[Decimals(t) + 1] < 16777216
Nice(t) == NiceBody(Body(t))
Log2(x) == CHOOSE p \in 0 .. 23 : 2 ^ p <= x /\ x < 2 ^ (p + 1)
FloatBytes(t, ty) ==
    LET b == Body(t)  k == Decimals(b)  M == Num(AllDigits(b)) \div Five[k + 1]  s == IF Neg(t) THEN 1 ELSE 0 IN
    IF M = 0 THEN [i \in 1 .. Size(ty) |-> IF i = Size(ty) THEN 128 * s ELSE 0]
    ELSE LET p == Log2(M)  f == M * 2 ^ (23 - p) - 8388608 IN           \* 23 bits after the leading one
         IF ty = "float32" THEN LET e == p - k + 127 IN <<f % 256, (f \div 256) % 256, (e % 2) * 128 + f \div 65536, s * 128 + e \div 2>>
         ELSE LET e == p - k + 1023 IN FromBits(LAMBDA j : IF j = 63 THEN s ELSE IF j >= 52 THEN (e \div 2 ^ (j - 52)) % 2 ELSE IF j >= 29 THEN (f \div 2 ^ (j - 29)) % 2 ELSE 0)

(* strings: a backslash and a line feed are written as two characters *)
Escape(s) == FlattenSeq([i \in DOMAIN s |-> IF s[i] = 92 THEN <<92, 92>> ELSE IF s[i] = 10 THEN <<92, 110>> ELSE <<s[i]>>])
RECURSIVE Unescape(_)
Unescape(t) == IF t = << >> THEN << >>
               ELSE IF Len(t) >= 2 /\ t[1] = 92 /\ t[2] \in {92, 110} THEN <<IF t[2] = 92 THEN 92 ELSE 10>> \o Unescape(SubSeq(t, 3, Len(t)))
               ELSE <<t[1]>> \o Unescape(Tail(t))

(* --------------------------------------------------------------------- tools *)
(* e is what a run was given and did, files what was there before                                                  *)
Has(files, f) == f \in DOMAIN files
Wrote(e) == {e.wrote[i].f : i \in DOMAIN e.wrote}
After(files, e, f) == IF f \in Wrote(e) THEN (e.wrote[CHOOSE i \in DOMAIN e.wrote : e.wrote[i].f = f]).raw ELSE files[f]
Exists(files, e, f) == f \in Wrote(e) \/ Has(files, f)
Special == {"FULL", "NODIR"}
(* what a device without space reports depends on whether there is anything to write *)
Writable(f, bytes) == ~(f = "NODIR") /\ ~(f = "FULL" /\ bytes # << >>)
Update(files, e) == [f \in DOMAIN files \cup Wrote(e) |-> After(files, e, f)]
Failed(e) == e.err /\ e.wrote = << >> /\ e.gone = << >>
(* a tool that works writes exactly the files it should: outs is a function from names to bytes *)
Did(files, e, outs) ==
    /\ e.gone = << >>
    /\ Wrote(e) \subseteq DOMAIN outs
    /\ IF \A f \in DOMAIN outs : Writable(f, outs[f])
       THEN ~e.err /\ \A f \in DOMAIN outs \ Special : Exists(files, e, f) /\ After(files, e, f) = outs[f]
       ELSE e.err
Say(e, ok, lines) == IF ok THEN ~e.err /\ e.wrote = << >> /\ e.gone = << >> /\ e.out = lines ELSE Failed(e)

EncodeOK(files, last, e) ==
    LET ty == e.args[1]  out == e.args[2]  n == Len(e.inp) IN
    IF Len(e.args) # 2 \/ ty \notin Types THEN Failed(e)
    ELSE IF ty = "string" THEN Did(files, e, (out :> EncStrings([i \in 1 .. n |-> Unescape(e.inp[i])])))
    ELSE IF ty \in Ints THEN IF \A i \in 1 .. n : IntLineOK(e.inp[i], ty) THEN Did(files, e, (out :> FlattenSeq([i \in 1 .. n |-> IntBytes(e.inp[i], ty)]))) ELSE Failed(e)
    ELSE IF \A i \in 1 .. n : Nice(e.inp[i]) THEN Did(files, e, (out :> FlattenSeq([i \in 1 .. n |-> FloatBytes(e.inp[i], ty)])))
    ELSE IF last.type = ty /\ last.lines = e.inp THEN Did(files, e, (out :> last.raw))       \* what decode_vector printed
    ELSE IF \E i \in 1 .. n : e.inp[i] = << >> \/ e.inp[i][1] \in 97 .. 122 THEN Failed(e)      \* no number at all
    ELSE /\ ~e.err /\ Len(After(files, e, out)) = n * Size(ty)
         /\ \A i \in 1 .. n : Nice(e.inp[i]) => Chunk(After(files, e, out), Size(ty), i) = FloatBytes(e.inp[i], ty)

DecodeOK(files, e) ==
    LET ty == e.args[1]  in == e.args[2] IN
    IF Len(e.args) # 2 \/ ty \notin Types \/ ~Has(files, in) THEN Failed(e) /\ e.out = << >>
    ELSE LET b == files[in]  k == Size(ty) IN
         IF ty = "string" THEN Say(e, TRUE, LET v == DecStrings(b, << >>) IN [i \in DOMAIN v |-> Escape(v[i])])
         ELSE IF Len(b) % k # 0 THEN Failed(e) /\ e.out = << >>
         ELSE IF ty \in Ints THEN Say(e, TRUE, [i \in 1 .. Len(b) \div k |-> IntText(Chunk(b, k, i), ty)])
         ELSE /\ ~e.err /\ e.wrote = << >> /\ e.gone = << >> /\ Len(e.out) = Len(b) \div k
              /\ \A i \in DOMAIN e.out : Nice(e.out[i]) => FloatBytes(e.out[i], ty) = Chunk(b, k, i)

(* order of two numbers of the same type *)
RECURSIVE LessMag(_, _)
LessMag(a, b) == IF a = << >> THEN FALSE ELSE LET n == Len(a) IN IF a[n] # b[n] THEN a[n] < b[n] ELSE LessMag(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
TopBit(a) == a[Len(a)] >= 128
Flip(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
Zeroish(a) == \A i \in DOMAIN a : a[i] = 0 \/ (i = Len(a) /\ a[i] = 128)
Less(ty, a, b) == IF ty \notin Floats THEN IF Signed(ty) THEN LessMag(Flip(a), Flip(b)) ELSE LessMag(a, b)
                  ELSE IF Zeroish(a) /\ Zeroish(b) THEN FALSE
                  ELSE IF TopBit(a) # TopBit(b) THEN TopBit(a)
                  ELSE IF TopBit(a) THEN LessMag(b, a) ELSE LessMag(a, b)
(* the numbers in a text *)
Runs(t) == LET starts == {i \in DOMAIN t : IsDigit(t[i]) /\ (i = 1 \/ ~IsDigit(t[i - 1]))}
               ends == {i \in DOMAIN t : IsDigit(t[i]) /\ (i = Len(t) \/ ~IsDigit(t[i + 1]))}
               S == SetToSortSeq(starts, <)  D == SetToSortSeq(ends, <) IN
           [i \in DOMAIN S |-> SubSeq(t, S[i], D[i])]
NumsIn(t) == LET r == Runs(t) IN [i \in DOMAIN r |-> Num(r[i])]
NumsOf(lines) == FlattenSeq([i \in DOMAIN lines |-> NumsIn(lines[i])])
CompareOK(files, e) ==
    LET ty == e.args[1]  A == e.args[2]  B == e.args[3] IN
    IF Len(e.args) # 3 \/ ty \notin Types \/ ~Has(files, A) \/ ~Has(files, B) THEN Failed(e)
    ELSE LET k == Size(ty)  a == files[A]  b == files[B] IN
         IF ty = "string"
         THEN LET u == DecStrings(a, << >>)  v == DecStrings(b, << >>)  n == Len(u)  same == Cardinality({i \in 1 .. n : u[i] = v[i]}) IN
                   /\ ~e.err /\ e.wrote = << >>
                   /\ NumsOf(e.out) = IF Len(u) # Len(v) THEN <<Min2(Len(u), Len(v)), Max2(Len(u), Len(v))>> ELSE IF u = v THEN <<n>> ELSE <<same, n - same, n>>
         ELSE IF Len(a) % k # 0 \/ Len(b) % k # 0 THEN Failed(e)
         ELSE LET n == Len(a) \div k  m == Len(b) \div k
                  lt == {i \in 1 .. n : Less(ty, Chunk(a, k, i), Chunk(b, k, i))}
                  gt == {i \in 1 .. n : Less(ty, Chunk(b, k, i), Chunk(a, k, i))} IN
              /\ ~e.err /\ e.wrote = << >>
              /\ NumsOf(e.out) = IF n # m THEN <<Min2(n, m), Max2(n, m)>>
                                 ELSE IF lt = {} /\ gt = {} THEN <<n>>
                                 ELSE <<Cardinality(lt), Cardinality(gt), n - Cardinality(lt) - Cardinality(gt), Cardinality(lt) + Cardinality(gt), n, Min(lt \cup gt) - 1>>

ConstantOK(files, e) == IF Len(e.args) # 3 \/ \E i \in {1, 2} : e.nums[i] = -1 THEN Failed(e)
                        ELSE Did(files, e, (e.args[3] :> Enc32([i \in 1 .. e.nums[1] |-> e.nums[2]])))

(* -------------------------------------------------------------- text formats *)
LinesOf(b) == LET nl == SetToSortSeq({i \in DOMAIN b : b[i] = 10}, <)  k == Len(nl) IN
              [i \in 1 .. k |-> SubSeq(b, IF i = 1 THEN 1 ELSE nl[i - 1] + 1, nl[i] - 1)]
              \o IF Len(b) > 0 /\ b[Len(b)] # 10 THEN <<SubSeq(b, IF k = 0 THEN 1 ELSE nl[k] + 1, Len(b))>> ELSE << >>
Blank(c) == c \in {32, 9}
Tokens(t) == LET s == SetToSortSeq({i \in DOMAIN t : ~Blank(t[i]) /\ (i = 1 \/ Blank(t[i - 1]))}, <)
                 d == SetToSortSeq({i \in DOMAIN t : ~Blank(t[i]) /\ (i = Len(t) \/ Blank(t[i + 1]))}, <) IN
             [i \in DOMAIN s |-> SubSeq(t, s[i], d[i])]
Content(b) == SelectSeq(LinesOf(b), LAMBDA x : x # << >> /\ x[1] # 99)          \* without empty lines and comments
FirstOut(n, tail) == [v \in 1 .. n + 1 |-> Cardinality({a \in DOMAIN tail : tail[a] < v - 1})]
TailOf(fo) == FlattenSeq([v \in 1 .. Len(fo) - 1 |-> [i \in 1 .. fo[v + 1] - fo[v] |-> v - 1]])
(* DIMACS graphs: "p sp nodes arcs", then "a tail head weight" with node ids from one *)
Gr(b) == LET L == Content(b) IN
    IF L = << >> THEN [ok |-> FALSE]
    ELSE LET T == [i \in DOMAIN L |-> Tokens(L[i])]  h == T[1]  m == Len(L) - 1 IN
         IF ~(Len(h) >= 4 /\ h[1] = <<112>> /\ h[2] = <<115, 112>> /\ SmallNum(h[3]) /\ SmallNum(h[4])) THEN [ok |-> FALSE]
         ELSE LET n == Num(h[3]) IN
              IF Num(h[4]) # m \/ \E i \in 2 .. m + 1 : ~(Len(T[i]) >= 4 /\ T[i][1] = <<97>> /\ \A j \in 2 .. 4 : SmallNum(T[i][j])) THEN [ok |-> FALSE]
              ELSE IF \E i \in 2 .. m + 1 : \E j \in {2, 3} : Num(T[i][j]) = 0 \/ Num(T[i][j]) > n THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, n |-> n, tail |-> [i \in 1 .. m |-> Num(T[i + 1][2]) - 1], head |-> [i \in 1 .. m |-> Num(T[i + 1][3]) - 1], w |-> [i \in 1 .. m |-> Num(T[i + 1][4])]]
ConvertGraphOK(files, e) ==
    IF Len(e.args) # 4 \/ ~Has(files, e.args[1]) THEN Failed(e)
    ELSE LET g == TLCEval(Gr(files[e.args[1]])) IN
         IF ~g.ok THEN Failed(e)
         ELSE LET p == SetToSortSeq(DOMAIN g.tail, LAMBDA i, j : g.tail[i] < g.tail[j] \/ (g.tail[i] = g.tail[j] /\ (g.head[i] < g.head[j] \/ (g.head[i] = g.head[j] /\ i < j)))) IN
              Did(files, e, (e.args[2] :> Enc32(FirstOut(g.n, g.tail))) @@ (e.args[3] :> Enc32([i \in DOMAIN p |-> g.head[p[i]]])) @@ (e.args[4] :> Enc32([i \in DOMAIN p |-> g.w[p[i]]])))

(* coordinates: "p aux sp co nodes", then "v node longitude latitude" in millionths of a degree *)
SNum(t) == IF t[1] = 45 THEN SmallNum(Tail(t)) ELSE SmallNum(t)
SVal(t) == IF t[1] = 45 THEN 0 - Num(Tail(t)) ELSE Num(t)
Co(b) == LET L == Content(b) IN
    IF L = << >> THEN [ok |-> FALSE]
    ELSE LET T == [i \in DOMAIN L |-> Tokens(L[i])]  h == T[1]  m == Len(L) - 1 IN
         IF ~(Len(h) = 5 /\ h[1] = <<112>> /\ h[2] = <<97, 117, 120>> /\ h[3] = <<115, 112>> /\ h[4] = <<99, 111>> /\ SmallNum(h[5])) THEN [ok |-> FALSE]
         ELSE LET n == Num(h[5]) IN
              IF m # n \/ \E i \in 2 .. m + 1 : ~(Len(T[i]) = 4 /\ T[i][1] = <<118>> /\ SmallNum(T[i][2]) /\ SNum(T[i][3]) /\ SNum(T[i][4])) THEN [ok |-> FALSE]
              ELSE IF {Num(T[i][2]) : i \in 2 .. m + 1} # 1 .. n THEN [ok |-> FALSE]
              ELSE LET at == [v \in 1 .. n |-> CHOOSE i \in 2 .. m + 1 : Num(T[i][2]) = v] IN
                   [ok |-> TRUE, n |-> n, lon |-> [v \in 1 .. n |-> SVal(T[at[v]][3])], lat |-> [v \in 1 .. n |-> SVal(T[at[v]][4])]]
(* b is the single precision number closest to x / 10^6: exactly checked for one degree and more and for multiples of 1/64 degree *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Micro(b, x) ==
    LET a == Abs(x)  q == a \div 15625  r == a % 15625  e == Exp32(b)  f == 8388608 + (b[3] % 128) * 65536 + b[2] * 256 + b[1]
        s == 150 - e - 6 IN                                                     \* b = f / 2^(s+6)
    IF a = 0 THEN Zeroish(b)
    ELSE /\ TopBit(b) = (x < 0)
         /\ IF r = 0 THEN LET p == Log2(q) IN f = q * 2 ^ (23 - p) /\ e = p - 6 + 127
            ELSE IF a >= 1000000 THEN s \in 0 .. 17 /\ Abs((f - q * 2 ^ s) * 15625 - r * 2 ^ s) <= 7813
            ELSE a < 1000 \/ (e < 127 /\ LET z == IF s > 23 THEN 0 ELSE f \div 2 ^ s IN z \in {q, q + 1})
ConvertCoordOK(files, e) ==
    IF Len(e.args) # 3 \/ ~Has(files, e.args[1]) THEN Failed(e)
    ELSE LET g == TLCEval(Co(files[e.args[1]])) IN
         IF ~g.ok THEN Failed(e)
         ELSE IF \E k \in {2, 3} : ~Writable(e.args[k], IF g.n = 0 THEN << >> ELSE <<0>>) THEN e.err /\ Wrote(e) \subseteq {e.args[2], e.args[3]}
         ELSE /\ ~e.err /\ e.gone = << >> /\ Wrote(e) \subseteq {e.args[2], e.args[3]}
              /\ LET la == After(files, e, e.args[2])  lo == After(files, e, e.args[3]) IN
                 /\ Len(la) = 4 * g.n /\ Len(lo) = 4 * g.n
                 /\ \A v \in 1 .. g.n : Micro(Chunk(la, 4, v), g.lat[v]) /\ Micro(Chunk(lo, 4, v), g.lon[v])

(* --------------------------------------------------------------------- graphs *)
HasPart(t, x) == \E i \in 1 .. Len(t) - Len(x) + 1 : SubSeq(t, i, i + Len(x) - 1) = x
(* fo, head and weights as files *)
GraphFiles(files, fs) == \A i \in DOMAIN fs : Has(files, fs[i]) /\ Is32(files[fs[i]])
ValidGraph(fo, head) == /\ Len(fo) >= 1 /\ fo[1] = 0 /\ fo[Len(fo)] = Len(head) /\ \A i \in 1 .. Len(fo) - 1 : fo[i] <= fo[i + 1]
                        /\ \A i \in DOMAIN head : head[i] \in 0 .. Len(fo) - 2
Text(x) == DigitsOf(<<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216>>)
ExportOK(files, e) ==
    IF Len(e.args) # 4 \/ ~GraphFiles(files, SubSeq(e.args, 1, 3)) THEN Failed(e)
    ELSE LET fo == Dec32(files[e.args[1]])  head == Dec32(files[e.args[2]])  w == Dec32(files[e.args[3]])  m == Len(head) IN
         IF ~ValidGraph(fo, head) \/ Len(w) # m \/ m = 0 THEN Failed(e)
         ELSE LET tail == TailOf(fo)  S == <<32>> IN
              Did(files, e, (e.args[4] :> <<112, 32, 115, 112, 32>> \o Text(Len(fo) - 1) \o S \o Text(m) \o <<10>>
                              \o FlattenSeq([a \in 1 .. m |-> <<97, 32>> \o Text(tail[a] + 1) \o S \o Text(head[a] + 1) \o S \o Text(w[a]) \o <<10>>])))
DotOK(files, e) ==
    IF Len(e.args) # 4 \/ ~GraphFiles(files, SubSeq(e.args, 1, 3)) THEN Failed(e)
    ELSE LET fo == Dec32(files[e.args[1]])  head == Dec32(files[e.args[2]])  w == Dec32(files[e.args[3]])  tail == TailOf(fo) IN
         IF e.args[4] = "NODIR" \/ ~ValidGraph(fo, head) \/ Len(w) # Len(head) THEN Failed(e)
         ELSE /\ ~e.err /\ Wrote(e) \subseteq {e.args[4]} /\ Exists(files, e, e.args[4])
              /\ NumsOf(LinesOf(After(files, e, e.args[4]))) = FlattenSeq([a \in DOMAIN head |-> <<tail[a], head[a], w[a]>>])
(* coordinates are multiples of 1/64 degree here; the bounding box becomes a square of 300 units, north is up *)
In64(b) == IF Zeroish(b) THEN 0
           ELSE LET v == (8388608 + (b[3] % 128) * 65536 + b[2] * 256 + b[1]) \div 2 ^ (144 - Exp32(b)) IN IF TopBit(b) THEN 0 - v ELSE v
Scaled(v, S) == LET lo == Min(S)  hi == Max(S) IN IF lo = hi THEN 0 ELSE (300 * (v - lo)) \div (hi - lo)
SvgOK(files, e) ==
    IF Len(e.args) # 5 \/ ~GraphFiles(files, SubSeq(e.args, 1, 4)) \/ e.args[5] = "NODIR" THEN Failed(e)
    ELSE LET fo == Dec32(files[e.args[1]])  head == Dec32(files[e.args[2]])  n == Len(fo) - 1 IN
         IF ~ValidGraph(fo, head) \/ Len(files[e.args[3]]) # 4 * n \/ Len(files[e.args[4]]) # 4 * n THEN Failed(e)
         ELSE LET tail == TailOf(fo)
                  la == TLCEval([v \in 1 .. n |-> In64(Chunk(files[e.args[3]], 4, v))])  lo == TLCEval([v \in 1 .. n |-> In64(Chunk(files[e.args[4]], 4, v))])
                  X(v) == Scaled(lo[v + 1], ToSet(lo))  Y(v) == 300 - Scaled(la[v + 1], ToSet(la))
                  drawn == SelectSeq(LinesOf(After(files, e, e.args[5])), LAMBDA t : HasPart(t, <<60, 108, 105, 110, 101>>))    \* "<line"
              IN /\ ~e.err /\ Wrote(e) \subseteq {e.args[5]} /\ Exists(files, e, e.args[5])
                 /\ Len(drawn) = Len(head)
                 (* the digits of x1, y1, x2, y2 come in between *)
                 /\ \A a \in DOMAIN head : LET c == NumsIn(drawn[a]) IN Len(c) >= 8 /\ <<c[2], c[4], c[6], c[8]>> = <<X(tail[a]), Y(tail[a]), X(head[a]), Y(head[a])>>
(* the nodes get new ids; the first weight file numbers the arcs, which shows where each of them went *)
PermuteOK(files, e) ==
    LET fs == SubSeq(e.args, 2, Len(e.args)) IN
    IF Len(e.args) < 3 \/ e.nums[1] = -1 \/ ~GraphFiles(files, fs) THEN Failed(e)
    ELSE LET fo == Dec32(files[fs[1]])  head == Dec32(files[fs[2]])  m == Len(head) IN
         IF ~ValidGraph(fo, head) \/ m = 0 \/ \E i \in 3 .. Len(fs) : Len(files[fs[i]]) # 4 * m THEN Failed(e)
         ELSE LET N(f) == After(files, e, f)
                  fo2 == Dec32(N(fs[1]))  head2 == Dec32(N(fs[2]))  tail == TailOf(fo)  tail2 == TailOf(fo2)
                  id == Dec32(N(fs[3]))
                  W == [i \in 3 .. Len(fs) |-> Dec32(files[fs[i]])]  W2 == [i \in 3 .. Len(fs) |-> Dec32(N(fs[i]))] IN
              /\ ~e.err /\ e.gone = << >> /\ Wrote(e) \subseteq ToSet(fs)
              /\ Len(fo2) = Len(fo) /\ Len(head2) = m /\ ValidGraph(fo2, head2)
              /\ \A a \in 1 .. m - 1 : tail2[a] = tail2[a + 1] => head2[a] <= head2[a + 1]
              /\ Len(id) = m /\ ToSet(id) = 0 .. m - 1
              /\ LET M == {<<tail[id[a] + 1], tail2[a]>> : a \in 1 .. m} \cup {<<head[id[a] + 1], head2[a]>> : a \in 1 .. m} IN
                 Cardinality({x[1] : x \in M}) = Cardinality(M) /\ Cardinality({x[2] : x \in M}) = Cardinality(M)
              /\ \A i \in 3 .. Len(fs) : Len(W2[i]) = m /\ \A a \in 1 .. m : W2[i][a] = W[i][id[a] + 1]

(* -------------------------------------------------------------------- queries *)
Graph3(files, e, a) == LET fo == Dec32(files[e.args[a]])  head == Dec32(files[e.args[a + 1]])  w == Dec32(files[e.args[a + 2]]) IN
                       [n |-> Len(fo) - 1, tail |-> TailOf(fo), head |-> head, w |-> w, ok |-> ValidGraph(fo, head) /\ Len(w) = Len(head)]
Distances(g) == APSP(g.n, g.tail, g.head, g.w)
Answers(D, s, t) == Enc32([i \in DOMAIN s |-> D[s[i]][t[i]]])
Within(s, n) == \A i \in DOMAIN s : s[i] \in 0 .. n - 1
RunDijkstraOK(files, e) ==
    IF Len(e.args) # 6 \/ ~GraphFiles(files, SubSeq(e.args, 1, 5)) THEN Failed(e)
    ELSE LET s == Dec32(files[e.args[4]])  t == Dec32(files[e.args[5]])
             valid == ValidGraph(Dec32(files[e.args[1]]), Dec32(files[e.args[2]])) /\ Len(files[e.args[3]]) = Len(files[e.args[2]]) IN
         IF ~valid \/ Len(s) # Len(t) \/ ~Within(s, Len(files[e.args[1]]) \div 4 - 1) \/ ~Within(t, Len(files[e.args[1]]) \div 4 - 1) THEN Failed(e)
         ELSE LET D == TLCEval(Distances(Graph3(files, e, 1))) IN Did(files, e, (e.args[6] :> Answers(D, s, t)))
(* hierarchies are opaque: chs says which graph they were made for *)
BuildCHOK(files, e) ==
    IF Len(e.args) # 4 \/ ~GraphFiles(files, SubSeq(e.args, 1, 3)) THEN Failed(e)
    ELSE LET valid == ValidGraph(Dec32(files[e.args[1]]), Dec32(files[e.args[2]])) /\ Len(files[e.args[3]]) = Len(files[e.args[2]]) IN
         IF ~valid \/ files[e.args[2]] = << >> THEN Failed(e)
         ELSE IF e.args[4] \in Special THEN e.err /\ e.wrote = << >>
         ELSE ~e.err /\ e.gone = << >> /\ Wrote(e) \subseteq {e.args[4]} /\ Exists(files, e, e.args[4])
QueryCHOK(files, chs, e) ==
    IF Len(e.args) # 4 \/ e.args[1] \notin DOMAIN chs \/ ~GraphFiles(files, SubSeq(e.args, 2, 3)) THEN Failed(e)
    ELSE LET s == Dec32(files[e.args[2]])  t == Dec32(files[e.args[3]]) IN
         IF Len(s) # Len(t) \/ ~Within(s, chs[e.args[1]].n) \/ ~Within(t, chs[e.args[1]].n) THEN Failed(e)
         ELSE LET D == TLCEval(Distances(chs[e.args[1]])) IN Did(files, e, (e.args[4] :> Answers(D, s, t)))
ExamineOK(files, chs, e) == IF Len(e.args) # 1 \/ e.args[1] \notin DOMAIN chs THEN Failed(e)
                            ELSE ~e.err /\ e.wrote = << >> /\ LET v == NumsOf(e.out) IN Len(v) >= 1 /\ v[1] = chs[e.args[1]].n

(* paths: the coordinates printed identify the nodes *)
InNumber(c) == IsDigit(c) \/ c \in {45, 46}
FloatRuns(t) == LET s == SetToSortSeq({i \in DOMAIN t : InNumber(t[i]) /\ (i = 1 \/ ~InNumber(t[i - 1]))}, <)
                    d == SetToSortSeq({i \in DOMAIN t : InNumber(t[i]) /\ (i = Len(t) \/ ~InNumber(t[i + 1]))}, <) IN [i \in DOMAIN s |-> SubSeq(t, s[i], d[i])]
NodeAt(t, la, lo) == LET r == FloatRuns(t) IN       \* longitude, latitude, altitude
    CHOOSE v \in 0 .. Len(la) \div 4 - 1 : Len(r) = 3 /\ Nice(r[1]) /\ Nice(r[2]) /\ Chunk(lo, 4, v + 1) = FloatBytes(r[1], "float32") /\ Chunk(la, 4, v + 1) = FloatBytes(r[2], "float32")
Lang(t) == HasPart(t, <<80, 97, 116, 104, 32, 111, 102>>)                     \* "Path of"
Coord(t) == \E i \in DOMAIN t : t[i] = 44 /\ HasPart(t, <<44, 48>>)           \* ",0"
MinArc(g, x, y) == MinOr({g.w[a] : a \in {b \in DOMAIN g.tail : g.tail[b] = x /\ g.head[b] = y}}, Inf)
(* one answer: source, target, length, nodes of the path *)
Answer(g, D, s, t, len, path) ==
    /\ len = D[s][t]
    /\ IF len = Inf THEN path = << >>
       ELSE path # << >> /\ path[1] = s /\ path[Len(path)] = t
            /\ FoldLeft(LAMBDA acc, i : SAdd(acc, MinArc(g, path[i], path[i + 1])), 0, [i \in 1 .. Len(path) - 1 |-> i]) = len
ShowPathOK(files, chs, e) ==
    IF Len(e.args) # 3 \/ e.args[1] \notin DOMAIN chs \/ ~GraphFiles(files, SubSeq(e.args, 2, 3)) THEN Failed(e)
    ELSE IF Len(files[e.args[2]]) # 4 * chs[e.args[1]].n \/ Len(files[e.args[3]]) # 4 * chs[e.args[1]].n THEN Failed(e) /\ ~\E i \in DOMAIN e.out : Lang(e.out[i])
    ELSE LET g == chs[e.args[1]]  la == files[e.args[2]]  lo == files[e.args[3]]
             q == NumsOf(e.inp)  k == Len(q) \div 2
             bad == {i \in 1 .. k : q[2 * i - 1] >= g.n \/ q[2 * i] >= g.n}
             good == IF bad = {} THEN k ELSE Min(bad) - 1
             C == SelectSeq(e.out, LAMBDA t : Coord(t) \/ Lang(t))
             at == SetToSortSeq({i \in DOMAIN C : Lang(C[i])}, <)
             D == TLCEval(Distances(g)) IN
         /\ e.err = (bad # {}) /\ e.wrote = << >> /\ e.gone = << >>
         /\ Len(at) = good
         /\ \A i \in 1 .. good :
              LET from == at[i] + 1  to == IF i = good THEN Len(C) ELSE at[i + 1] - 3
                  path == [j \in 1 .. to - from + 1 |-> NodeAt(C[from + j - 1], la, lo)] IN
              /\ at[i] >= 3
              /\ NodeAt(C[at[i] - 2], la, lo) = q[2 * i - 1] /\ NodeAt(C[at[i] - 1], la, lo) = q[2 * i]
              /\ Answer(g, D, q[2 * i - 1], q[2 * i], NumsIn(C[at[i]])[1], path)

(* ------------------------------------------------------------ random queries *)
SizeArg(files, e, i) == IF e.nums[i] # -1 THEN e.nums[i] ELSE IF Has(files, e.args[i]) /\ Is32(files[e.args[i]]) THEN Len(files[e.args[i]]) \div 4 ELSE -1
(* k numbers below n: long lists of few values contain all of them *)
Random(v, n, k) == /\ Len(v) = k /\ \A i \in DOMAIN v : v[i] \in 0 .. n - 1
                   /\ (k >= 60 * n => ToSet(v) = 0 .. n - 1)
                   /\ (k >= 40 /\ n >= 40 => Cardinality(ToSet(v)) >= 10)
Puts(files, e, outs) == ~e.err /\ e.gone = << >> /\ Wrote(e) \subseteq outs /\ \A f \in outs : Exists(files, e, f) /\ Is32(After(files, e, f))
Out32(files, e, i) == Dec32(After(files, e, e.args[i]))
QueriesOK(files, e) ==
    IF Len(e.args) # 5 \/ (\E i \in 1 .. 3 : e.nums[i] = -1) \/ (e.nums[1] = 0 /\ e.nums[2] > 0) THEN Failed(e)
    ELSE IF e.args[4] \in Special THEN e.err
    ELSE Puts(files, e, {e.args[4], e.args[5]}) /\ LET s == Out32(files, e, 4)  t == Out32(files, e, 5)  n == e.nums[1]  k == e.nums[2] IN
         Random(s, n, k) /\ Random(t, n, k) /\ (k >= 40 /\ n >= 2 => s # t)
NodeListOK(files, e) ==
    IF Len(e.args) # 4 \/ SizeArg(files, e, 1) = -1 \/ e.nums[2] = -1 \/ e.nums[3] = -1 \/ (SizeArg(files, e, 1) = 0 /\ e.nums[2] > 0) THEN Failed(e)
    ELSE Puts(files, e, {e.args[4]}) /\ Random(Out32(files, e, 4), SizeArg(files, e, 1), e.nums[2])
TimesOK(files, e) ==
    IF Len(e.args) # 4 \/ SizeArg(files, e, 1) = -1 \/ e.nums[2] = -1 \/ ~Has(files, e.args[3]) \/ Len(files[e.args[3]]) # 4 \/ (files[e.args[3]] = <<0, 0, 0, 0>> /\ SizeArg(files, e, 1) > 0) THEN Failed(e)
    ELSE Puts(files, e, {e.args[4]}) /\ Random(Out32(files, e, 4), Dec32(files[e.args[3]])[1], SizeArg(files, e, 1))
(* single source distances by relaxing all arcs until nothing changes *)
RECURSIVE Settle(_, _)
Settle(g, D) == LET D2 == FoldLeft(LAMBDA A, a : LET x == SAdd(A[g.tail[a]], g.w[a]) IN IF x < A[g.head[a]] THEN [A EXCEPT ![g.head[a]] = x] ELSE A, D, [a \in 1 .. Len(g.tail) |-> a]) IN
                IF D2 = D THEN D ELSE Settle(g, D2)
From(g, s) == Settle(g, [v \in 0 .. g.n - 1 |-> IF v = s THEN 0 ELSE Inf])
(* the target of rank r is the node that is reached as number 2^r; only ranks above 5 are written *)
Ranks(D) == LET reach == Cardinality({v \in DOMAIN D : D[v] < Inf}) IN {r \in 6 .. 12 : 2 ^ r <= reach}
RankOK(files, e) ==
    IF Len(e.args) # 9 \/ ~GraphFiles(files, SubSeq(e.args, 1, 3)) \/ SizeArg(files, e, 4) = -1 \/ e.nums[5] = -1 THEN Failed(e)
    ELSE IF ~ValidGraph(Dec32(files[e.args[1]]), Dec32(files[e.args[2]])) \/ Len(files[e.args[3]]) # Len(files[e.args[2]]) THEN Failed(e)
    ELSE IF Len(files[e.args[1]]) = 4 /\ SizeArg(files, e, 4) > 0 THEN Failed(e)
    ELSE LET g == TLCEval(Graph3(files, e, 1))
             s == TLCEval(Out32(files, e, 6))  t == Out32(files, e, 7)  r == TLCEval(Out32(files, e, 8))  d == Out32(files, e, 9)
             D == TLCEval([x \in ToSet(s) |-> From(g, x)]) IN
         /\ Puts(files, e, {e.args[6], e.args[7], e.args[8], e.args[9]})
         /\ Len(t) = Len(s) /\ Len(r) = Len(s) /\ Len(d) = Len(s)
         /\ \A i \in DOMAIN s :
              /\ s[i] \in 0 .. g.n - 1 /\ t[i] \in 0 .. g.n - 1 /\ r[i] \in Ranks(D[s[i]]) /\ d[i] = D[s[i]][t[i]]
              /\ Cardinality({v \in 0 .. g.n - 1 : D[s[i]][v] < d[i]}) < 2 ^ r[i] /\ 2 ^ r[i] <= Cardinality({v \in 0 .. g.n - 1 : D[s[i]][v] <= d[i]})
              (* the ranks of a source follow each other, from 6 to the largest *)
              /\ IF r[i] + 1 \in Ranks(D[s[i]]) THEN i < Len(s) /\ s[i + 1] = s[i] /\ r[i + 1] = r[i] + 1 ELSE i = Len(s) \/ r[i + 1] = 6
              /\ i = 1 => r[i] = 6
         /\ LET blocks == Cardinality({i \in DOMAIN r : r[i] = 6})  k == SizeArg(files, e, 4) IN
            blocks <= k /\ (Len(g.head) > 0 /\ g.n >= 64 /\ Cardinality({v \in 0 .. g.n - 1 : Cardinality({a \in DOMAIN g.tail : g.tail[a] = v /\ g.head[a] = (v + 1) % g.n}) > 0}) = g.n => blocks = k)

Located(files, e) == /\ ValidGraph(Dec32(files[e.args[1]]), Dec32(files[e.args[2]]))
                     /\ \A i \in {3, 4} : Len(files[e.args[i]]) = Len(files[e.args[1]]) - 4
(* ref: reference lengths of the arcs in decimetres *)
GeoWeightsOK(files, ref, e) ==
    IF Len(e.args) # 5 \/ ~GraphFiles(files, SubSeq(e.args, 1, 4)) THEN Failed(e)
    ELSE IF ~Located(files, e) THEN Failed(e)
    ELSE Puts(files, e, {e.args[5]}) /\ LET w == Out32(files, e, 5) IN
         Len(w) = Len(ref) /\ \A a \in DOMAIN w : Abs(w[a] - ref[a] \div 10) <= 2 + ref[a] \div 1000000
OrderOK(files, e) ==
    IF Len(e.args) # 5 \/ ~GraphFiles(files, SubSeq(e.args, 1, 4)) THEN Failed(e)
    ELSE IF ~Located(files, e) THEN Failed(e)
    ELSE Puts(files, e, {e.args[5]}) /\ LET o == Out32(files, e, 5)  n == Len(files[e.args[1]]) \div 4 - 1 IN Len(o) = n /\ ToSet(o) = 0 .. n - 1
=============================================================================
