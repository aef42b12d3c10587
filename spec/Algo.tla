-------------------------------- MODULE Algo --------------------------------
(* Input/output relations of the stateless algorithms: what a result has to    *)
(* satisfy, not how it is computed.  Vectors are 1-based sequences of 0-based  *)
(* ids, as everywhere in these specifications.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Functions, FiniteSetsExt, SequencesExt

Ids(n) == 0 .. n - 1
IsPerm(p, n) == Len(p) = n /\ ToSet(p) = Ids(n)
At(v, x) == v[x + 1]
Apply(p, v) == [i \in DOMAIN p |-> At(v, p[i])]
Count(v, x) == Cardinality({i \in DOMAIN v : v[i] = x})
SameBag(u, v) == Len(u) = Len(v) /\ \A x \in ToSet(u) \cup ToSet(v) : Count(u, x) = Count(v, x)
Incr(v) == \A i \in 1 .. Len(v) - 1 : v[i] <= v[i + 1]
Decr(v) == \A i \in 1 .. Len(v) - 1 : v[i] >= v[i + 1]

(* ------------------------------------------------------------------- sorting *)
(* p lists positions of k in sorted order; stable: equal keys in the original order *)
SortPerm(k, p) == IsPerm(p, Len(k)) /\ Incr(Apply(p, k))
StableSortPerm(k, p) == SortPerm(k, p) /\ \A i \in 1 .. Len(p) - 1 : At(k, p[i]) = At(k, p[i + 1]) => p[i] < p[i + 1]
RevPerm(k, p) == IsPerm(p, Len(k)) /\ Decr(Apply(p, k))
StableRevPerm(k, p) == RevPerm(k, p) /\ \A i \in 1 .. Len(p) - 1 : At(k, p[i]) = At(k, p[i + 1]) => p[i] < p[i + 1]
IsInverseOf(i, p) == IsPerm(i, Len(p)) /\ \A j \in DOMAIN p : At(i, p[j]) = j - 1
(* i moves element j to position i[j]; s is some valid permutation sorting k, so that Apply(s, k) is the sorted vector.
   The stable one is unique: i is its inverse. *)
InvSort(k, i, s) == IsPerm(i, Len(k)) /\ LET K == Apply(s, k) IN \A j \in DOMAIN k : At(K, i[j]) = k[j]
InvStable(i, s) == IsInverseOf(i, s)
(* There is exactly one stable sorting permutation: psk, or psc for the reversed order. *)
SortOK(e) == LET k == e.k  S(p) == p = e.psk \/ SortPerm(k, p)  R(p) == p = e.psc \/ RevPerm(k, p) IN
    /\ StableSortPerm(k, e.psk) /\ S(e.pk) /\ InvSort(k, e.ik, e.psk) /\ InvStable(e.isk, e.psk)
    /\ e.psl = e.psk /\ S(e.pl) /\ InvSort(k, e.il, e.psk) /\ e.isl = e.isk
    /\ StableRevPerm(k, e.psc) /\ R(e.pc) /\ InvSort(k, e.ic, e.psc) /\ InvStable(e.isc, e.psc)
    (* the sorted vectors, given by the tags (original positions) of their elements *)
    /\ S(e.sk) /\ S(e.skr) /\ e.ssk = e.psk /\ e.sskr = e.psk
    /\ S(e.sl) /\ S(e.slr) /\ e.ssl = e.psk /\ e.sslr = e.psk
    /\ R(e.sc) /\ R(e.scr) /\ e.ssc = e.psc /\ e.sscr = e.psc
    /\ e.isk_ = Incr(k) /\ e.isl_ = Incr(k) /\ e.isc_ = Decr(k)
    /\ e.kept = [i \in DOMAIN k |-> i - 1]       \* arguments passed by reference to const are not changed

(* -------------------------------------------------------------- permutations *)
PermOK(e) == LET n == Len(e.p)  id == [i \in 1 .. n |-> i - 1] IN
    /\ e.ap = e.p /\ e.apr = e.p                               \* the tag of element i is i
    /\ \A i \in 1 .. n : At(e.ai, e.p[i]) = i - 1
    /\ e.air = e.ai /\ Len(e.ai) = n
    /\ \A v \in {id} : Apply(e.lr, v) = Apply(e.q, Apply(e.p, v)) /\ Apply(e.rl, v) = Apply(e.p, Apply(e.q, v))
    /\ Len(e.lr) = n /\ Len(e.rl) = n
    /\ IsInverseOf(e.inv, e.p) /\ Len(e.inv) = n /\ e.id = id
    /\ e.el = [i \in DOMAIN e.x |-> At(e.p, e.x[i])] /\ e.eli = e.el
    /\ e.pi = [i \in DOMAIN e.y |-> IF e.y[i] = -1 THEN -1 ELSE At(e.p, e.y[i])] /\ e.pii = e.pi
    /\ IsPerm(e.rnd, n)

(* ------------------------------------------- inverse vectors, filters, extrema *)
InvVecOK(e) == /\ Len(e.r) = e.n + 1 /\ e.r[1] = 0 /\ e.r[e.n + 1] = Len(e.v) /\ Incr(e.r)
               (* the positions of i are exactly the range r[i] .. r[i+1]-1: the ranges partition the positions *)
               /\ \A i \in Ids(e.n) : \A j \in At(e.r, i) .. (At(e.r, i + 1) - 1) : At(e.v, j) = i
               /\ e.back = e.v
FilterOK(e) == LET inlist == ToSet(e.list)
                   keep == SelectSeq([i \in 1 .. e.n |-> i - 1], LAMBDA x : x \in inlist)
                   rem == SelectSeq([i \in 1 .. e.n |-> i - 1], LAMBDA x : x \notin inlist) IN
    e.keep = keep /\ e.ikeep = keep /\ e.rem = rem /\ e.irem = rem
(* first position of an extremum: nothing before it is as good, nothing after it is better *)
MinMaxOK(e) == LET v == e.v IN
    /\ IF v = << >> THEN e.mind = e.d /\ e.maxd = e.d
       ELSE /\ e.fmin \in Ids(Len(v)) /\ e.fmax \in Ids(Len(v))
            /\ e.min = At(v, e.fmin) /\ e.mind = e.min /\ e.max = At(v, e.fmax) /\ e.maxd = e.max
            /\ \A i \in DOMAIN v : v[i] >= e.min /\ v[i] <= e.max /\ (i <= e.fmin => v[i] # e.min) /\ (i <= e.fmax => v[i] # e.max)
    /\ e.minto = (IF e.x < e.y THEN e.x ELSE e.y) /\ e.maxto = (IF e.x > e.y THEN e.x ELSE e.y)

(* ------------------------------------------------------------ graph utilities *)
(* arcs out of x are the positions first[x] .. first[x+1]-1 of head *)
Out(first, x) == At(first, x) .. (At(first, x + 1) - 1)
FindArcOK(e) == LET n == Len(e.first) - 1
                    X == IF "xs" \in DOMAIN e THEN e.xs ELSE [i \in 1 .. n |-> i - 1]        \* consecutive tails that were looked up
                    ok(head, r, x, y) == LET c == {a \in Out(e.first, x) : At(head, a) = y}  got == At(r, (x - X[1]) * n + y) IN IF c = {} THEN got = -1 ELSE got \in c IN
    \A x \in ToSet(X), y \in Ids(n) : ok(e.head, e.a, x, y) /\ ok(e.head, e.b, x, y) /\ ok(e.shead, e.c, x, y) /\ ok(e.shead, e.d, x, y)
PathsOK(e) ==
    /\ Len(e.toarcs) = (IF e.nodes = << >> THEN 0 ELSE Len(e.nodes) - 1)
    /\ \A i \in DOMAIN e.toarcs : e.toarcs[i] \in Out(e.first, e.nodes[i]) /\ At(e.head, e.toarcs[i]) = e.nodes[i + 1]
    /\ e.arcs # << >> => e.tonodes = <<e.s>> \o [i \in DOMAIN e.arcs |-> At(e.head, e.arcs[i])]
LexLeq(a, b, x, y) == IF At(a, x) = At(a, y) THEN At(b, x) <= At(b, y) ELSE At(a, x) < At(a, y)
LexPerm(a, b, p) == IsPerm(p, Len(a)) /\ \A i \in 1 .. Len(p) - 1 : LexLeq(a, b, p[i], p[i + 1])
(* against a valid permutation s *)
LexInv(a, b, i, s) == IsPerm(i, Len(a)) /\ LET A == Apply(s, a)  B == Apply(s, b) IN \A j \in DOMAIN a : At(A, i[j]) = a[j] /\ At(B, i[j]) = b[j]
LexSortOK(e) == LET sorted == Apply(e.p, e.a) IN
    /\ LexPerm(e.a, e.b, e.p) /\ LexInv(e.a, e.b, e.i, e.p) /\ LexInv(e.a, e.b, e.i2, e.p) /\ e.a2 = sorted
    /\ LexPerm(e.a, e.b, e.tp) /\ LexInv(e.a, e.b, e.ti, e.p) /\ LexInv(e.a, e.b, e.ti2, e.p) /\ e.ta2 = sorted
    /\ LexPerm(e.a, e.b, e.tp2) /\ e.ta3 = sorted

(* --------------------------------------------- strongly connected components *)
RECURSIVE Closure(_, _)
Closure(succ, S) == LET T == S \cup UNION {succ[x] : x \in S} IN IF T = S THEN S ELSE Closure(succ, T)
SccOK(e) == LET n == Len(e.first) - 1
                succ == [x \in Ids(n) |-> {At(e.head, a) : a \in Out(e.first, x)}]
                reach == [x \in Ids(n) |-> Closure(succ, {x})]
                cls == [x \in Ids(n) |-> {y \in reach[x] : x \in reach[y]}] IN
    /\ Len(e.comp) = n /\ e.count = Cardinality({cls[x] : x \in Ids(n)})
    /\ \A x \in Ids(n) : At(e.comp, x) \in Ids(e.count)
    /\ \A x, y \in Ids(n) : (At(e.comp, x) = At(e.comp, y)) = (y \in cls[x])
    /\ e.bn = n
    /\ IF n = 0 THEN e.largest = << >>
       ELSE \E x \in Ids(n) : cls[x] = ToSet(e.largest) /\ \A y \in Ids(n) : Cardinality(cls[y]) <= Cardinality(cls[x])

(* The same for large graphs, decided with a certificate (h) that is itself checked here.  For every node x: root[x], a node
   of its class; fa[x] and ba[x], arcs into and out of x leading to a node of the same class that is nearer to root[x]
   (fd and bd count the steps); lev[x], non-decreasing along every arc and increasing where the class changes; pos[x], a
   number of x inside its class.  Then the classes are strongly connected, and no two of them are connected both ways. *)
TailOf(first, a, x) == At(first, x) <= a /\ a < At(first, x + 1)
SccCertOK(e) == LET n == Len(e.first) - 1  h == e.h  L == ToSet(e.largest)
                    roots == {h.root[i] : i \in 1 .. n}  lc == IF L = {} THEN -1 ELSE At(h.root, CHOOSE x \in L : TRUE) IN
    (* the certificate *)
    /\ \A x \in Ids(n) : LET r == At(h.root, x) IN
          IF x = r THEN At(h.fd, x) = 0 /\ At(h.bd, x) = 0
          ELSE LET f == At(h.fa, x)  t == At(h.ft, x)  b == At(h.ba, x)  y == At(e.head, b) IN
               /\ TailOf(e.first, f, t) /\ At(e.head, f) = x /\ At(h.root, t) = r /\ At(h.fd, t) = At(h.fd, x) - 1 /\ At(h.fd, x) > 0
               /\ TailOf(e.first, b, x) /\ At(h.root, y) = r /\ At(h.bd, y) = At(h.bd, x) - 1 /\ At(h.bd, x) > 0
    /\ \A x \in Ids(n) : \A a \in Out(e.first, x) : LET y == At(e.head, a) IN
          IF At(h.root, x) = At(h.root, y) THEN At(h.lev, x) = At(h.lev, y) ELSE At(h.lev, x) < At(h.lev, y)
    (* the answer *)
    /\ Len(e.comp) = n /\ e.count = Cardinality(roots) /\ e.bn = n
    /\ \A x \in Ids(n) : At(e.comp, x) = At(e.comp, At(h.root, x)) /\ At(e.comp, x) \in Ids(e.count)
    /\ Cardinality({At(e.comp, r) : r \in roots}) = Cardinality(roots)
    /\ (n > 0 => L # {}) /\ \A x \in Ids(n) : (x \in L) = (At(h.root, x) = lc)
    (* no class has more members than the largest: their numbers are distinct and below its size *)
    /\ Cardinality({<<At(h.root, x), At(h.pos, x)>> : x \in Ids(n)}) = n
    /\ \A x \in Ids(n) : At(h.pos, x) \in 0 .. Cardinality(L) - 1

(* ---------------------------------------------------------- nested dissection *)
(* A fragment is a symmetric graph without loops; back[a] is the reverse of a, and global[x] names node x *)
Fragment(f) == LET n == Len(f.id)  m == Len(f.tail) IN
    /\ Len(f.head) = m /\ Len(f.back) = m /\ Len(f.first) = n + 1
    /\ \A a \in Ids(m) : At(f.tail, a) \in Ids(n) /\ At(f.head, a) \in Ids(n) /\ At(f.tail, a) # At(f.head, a)
    /\ Incr(f.first) /\ f.first[1] = 0 /\ f.first[n + 1] = m
    /\ \A x \in Ids(n) : \A a \in Out(f.first, x) : At(f.tail, a) = x
    /\ \A a \in Ids(m) : LET b == At(f.back, a) IN b \in Ids(m) /\ At(f.back, b) = a /\ At(f.tail, b) = At(f.head, a) /\ At(f.head, b) = At(f.tail, a)
GlobalPairs(f) == [i \in DOMAIN f.tail |-> <<At(f.id, f.tail[i]), At(f.id, f.head[i])>>]
(* the pairs of a list of pairs of numbers below n, with their multiplicities *)
SortedPairs(P, n) == SortSeq([i \in DOMAIN P |-> P[i][1] * n + P[i][2]], LAMBDA x, y : x < y)
FragmentOK(e) == LET f == e.f
                     nl == SelectSeq([i \in DOMAIN e.tail |-> <<e.tail[i], e.head[i]>>], LAMBDA p : p[1] # p[2])
                     both == SortedPairs(nl \o [i \in DOMAIN nl |-> <<nl[i][2], nl[i][1]>>], e.n)
                     ids == FlattenSeq([i \in DOMAIN e.parts |-> e.parts[i].id]) IN
    /\ Fragment(f) /\ f.id = [i \in 1 .. e.n |-> i - 1] /\ SortedPairs(GlobalPairs(f), e.n) = both
    (* the parts are the connected components, with all their arcs: they partition the nodes, hold all arcs, and are connected *)
    /\ \A i \in DOMAIN e.parts : e.parts[i].id # << >> /\ Fragment(e.parts[i])
    /\ Len(ids) = e.n /\ ToSet(ids) = Ids(e.n)
    /\ SortedPairs(FlattenSeq([i \in DOMAIN e.parts |-> GlobalPairs(e.parts[i])]), e.n) = both
    /\ \A i \in DOMAIN e.parts : LET q == e.parts[i]  k == Len(q.id) IN
          Closure([x \in Ids(k) |-> {At(q.head, a) : a \in Out(q.first, x)}], {0}) = Ids(k)

(* undirected cut size: arcs of the input (without loops) with exactly one end in S *)
CutSize(tail, head, S) == Cardinality({i \in DOMAIN tail : (tail[i] \in S) # (head[i] \in S)})
MinCut(n, tail, head, S, T) == Min({CutSize(tail, head, X \cup S) : X \in SUBSET (Ids(n) \ (S \cup T))})
Side(e, c) == c.n = e.n /\ c.count = Len(c.m) /\ Len(c.m) = Cardinality(ToSet(c.m)) /\ c.size = CutSize(e.tail, e.head, ToSet(c.m))
(* maximum flow / minimum cut between two disjoint sets of nodes *)
(* For large graphs a certificate: walks from S to T over pairwise different arcs (taken in either direction); no cut is smaller than their number *)
Other(e, a, x) == IF x >= 0 /\ At(e.tail, a) = x THEN At(e.head, a) ELSE IF x >= 0 /\ At(e.head, a) = x THEN At(e.tail, a) ELSE -1
DisjointWalks(e, S, T) == LET all == FlattenSeq(e.walks) IN
    /\ Cardinality(ToSet(all)) = Len(all)
    /\ \A i \in DOMAIN e.walks : LET w == e.walks[i]  z == FoldLeft(LAMBDA x, a : Other(e, a, x), e.from[i], w) IN e.from[i] \in S /\ z \in T
FlowOK(e) == LET S == ToSet(e.S)  T == ToSet(e.T)
                 best == IF "walks" \in DOMAIN e THEN Len(e.walks) ELSE MinCut(e.n, e.tail, e.head, S, T)
                 k == Len(e.seq) IN
    /\ ("walks" \in DOMAIN e => DisjointWalks(e, S, T))
    /\ e.fin /\ e.fin2 /\ e.seq[1] = 0 /\ Incr(e.seq) /\ e.seq[k] = best /\ e.after = best
    /\ Side(e, e.src) /\ e.src.size = best /\ S \subseteq ToSet(e.src.m) /\ T \cap ToSet(e.src.m) = {}
    /\ Side(e, e.tgt) /\ e.tgt.size = best /\ T \subseteq ToSet(e.tgt.m) /\ S \cap ToSet(e.tgt.m) = {}
    /\ Side(e, e.bal) /\ e.bal.size = best
    /\ LET X == ToSet(e.bal.m) IN (S \subseteq X /\ T \cap X = {}) \/ (T \subseteq X /\ S \cap X = {})
    (* the balanced cut is not less balanced than both extreme ones *)
    /\ LET sm(c) == IF c.count < e.n - c.count THEN c.count ELSE e.n - c.count IN sm(e.bal) >= Min({sm(e.src), sm(e.tgt)})
Smaller(e, c, d) == Side(e, d) /\ d.size = c.size /\ (ToSet(d.m) = ToSet(c.m) \/ ToSet(d.m) = Ids(e.n) \ ToSet(c.m)) /\ 2 * d.count <= e.n
(* removing the separator leaves no arc between the two sides of the cut *)
Separates(e, cut, sep) == \A i \in DOMAIN e.tail : (e.tail[i] \in cut) = (e.head[i] \in cut) \/ e.tail[i] \in sep \/ e.head[i] \in sep
SepOK(e, cut, sep) == /\ sep \subseteq Ids(e.n) /\ Separates(e, cut, sep)
                      /\ \A x \in sep : \E i \in DOMAIN e.tail : (e.tail[i] = x \/ e.head[i] = x) /\ (e.tail[i] \in cut) # (e.head[i] \in cut)
                      /\ (sep \subseteq cut \/ sep \cap cut = {})
Balance(e) == IF e.bal < 0 THEN IF (25 * e.n) \div 100 = 0 THEN 1 ELSE (25 * e.n) \div 100 ELSE IF (e.bal * e.n) \div 100 = 0 THEN 1 ELSE (e.bal * e.n) \div 100
(* with integer coordinates that differ in all four directions the sources and targets are determined, and the cut is the smallest one of the four directions *)
Directions(e) == {[x \in Ids(e.n) |-> At(e.x, x)], [x \in Ids(e.n) |-> At(e.y, x)], [x \in Ids(e.n) |-> At(e.x, x) + At(e.y, x)], [x \in Ids(e.n) |-> At(e.x, x) - At(e.y, x)]}
FirstBy(key, n, k) == {x \in Ids(n) : Cardinality({y \in Ids(n) : key[y] < key[x]}) < k}
LastBy(key, n, k) == {x \in Ids(n) : Cardinality({y \in Ids(n) : key[y] > key[x]}) < k}
SmallestCut(e, k) == Min({MinCut(e.n, e.tail, e.head, FirstBy(d, e.n, k), LastBy(d, e.n, k)) : d \in Directions(e)})
InertialOK(e) == /\ ("x" \in DOMAIN e /\ e.bal >= 0 /\ \A d \in Directions(e) : Cardinality({d[x] : x \in Ids(e.n)}) = e.n) => e.cut.size = SmallestCut(e, Balance(e))
                 /\ LET X == ToSet(e.cut.m) IN
                    /\ Side(e, e.cut) /\ X # {} /\ X # Ids(e.n)
                    /\ e.cut.count >= Balance(e) /\ e.n - e.cut.count >= Balance(e)
                    /\ Smaller(e, e.cut, e.small) /\ SepOK(e, X, ToSet(e.sep)) /\ SepOK(e, X, ToSet(e.sep2))
SeparatorOK(e) == LET X == ToSet(e.cut) IN
    /\ SepOK(e, X, ToSet(e.sep))
    /\ e.small.count = Len(e.small.m) /\ (ToSet(e.small.m) = X \/ ToSet(e.small.m) = Ids(e.n) \ X) /\ 2 * e.small.count <= e.n /\ e.small.n = e.n

(* A separator decomposition: a tree (first child, next sibling) whose nodes own consecutive ranges of the order.
   Every arc connects vertices owned by the same tree node or by one that is an ancestor of the other, and the
   vertices of a subtree come before those of its root. *)
RECURSIVE Siblings(_, _, _)
Siblings(e, t, fuel) == IF fuel = 0 THEN <<t, t>> ELSE IF At(e.rs, t) = 0 THEN <<t>> ELSE <<t>> \o Siblings(e, At(e.rs, t), fuel - 1)
RECURSIVE IsAncestor(_, _, _, _)
IsAncestor(par, a, t, fuel) == a = t \/ (fuel > 0 /\ t # 0 /\ IsAncestor(par, a, par[t], fuel - 1))
DecompOK(e) == LET k == Len(e.lc)
                   kids == [t \in Ids(k) |-> IF At(e.lc, t) = 0 THEN << >> ELSE Siblings(e, At(e.lc, t), k)]
                   kidset == [t \in Ids(k) |-> ToSet(kids[t])] IN
    /\ IsPerm(e.order, e.n) /\ IsPerm(e.order2, e.n)
    /\ k >= 1 /\ Len(e.rs) = k /\ \A t \in Ids(k) : At(e.lc, t) \in Ids(k) /\ At(e.rs, t) \in Ids(k)
    (* one tree rooted in 0 where every other node has one place *)
    /\ FoldLeft(LAMBDA x, t : x + Len(kids[t - 1]), 0, [t \in 1 .. k |-> t]) = k - 1
    /\ UNION {kidset[t] : t \in Ids(k)} = 1 .. k - 1
    /\ Closure(kidset, {0}) = Ids(k)
    (* the ranges partition the order, those of a subtree come before that of its root *)
    /\ \A t \in Ids(k) : At(e.b, t) <= At(e.e, t)
    /\ FoldLeft(LAMBDA x, t : x + e.e[t] - e.b[t], 0, [t \in 1 .. k |-> t]) = e.n
    /\ UNION {At(e.b, t) .. (At(e.e, t) - 1) : t \in Ids(k)} = Ids(e.n)
    /\ \A t \in Ids(k) : \A c \in kidset[t] : At(e.e, c) <= At(e.b, t)
    (* every arc connects vertices of one tree node, or of an ancestor and a descendant *)
    /\ LET par == FoldLeft(LAMBDA f, t : [c \in kidset[t - 1] |-> t - 1] @@ f, << >>, [t \in 1 .. k |-> t])
           at == FoldLeft(LAMBDA f, i : [f EXCEPT ![e.order[i] + 1] = i - 1], e.order, [i \in 1 .. e.n |-> i])
           own == [p \in Ids(e.n) |-> CHOOSE t \in Ids(k) : p >= At(e.b, t) /\ p < At(e.e, t)]
           owner(x) == own[At(at, x)] IN
       \A i \in DOMAIN e.tail : LET s == owner(e.tail[i])  t == owner(e.head[i]) IN IsAncestor(par, s, t, k) \/ IsAncestor(par, t, s, k)

Judge(e) == CASE e.op = "sort" -> SortOK(e) [] e.op = "perm" -> PermOK(e) [] e.op = "isperm" -> e.r = IsPerm(e.p, Len(e.p))
              [] e.op = "invvec" -> InvVecOK(e) [] e.op = "filter" -> FilterOK(e) [] e.op = "minmax" -> MinMaxOK(e)
              [] e.op = "findarc" -> FindArcOK(e) [] e.op = "paths" -> PathsOK(e) [] e.op = "lexsort" -> LexSortOK(e)
              [] e.op = "scc" -> IF "h" \in DOMAIN e THEN SccCertOK(e) ELSE SccOK(e) [] e.op = "fragment" -> FragmentOK(e) [] e.op = "flow" -> FlowOK(e)
              [] e.op = "inertial" -> InertialOK(e) [] e.op = "separator" -> SeparatorOK(e) [] e.op = "decomp" -> DecompOK(e) [] e.op = "ndorder" -> IsPerm(e.order, e.n)
=============================================================================
