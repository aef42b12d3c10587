------------------------------ MODULE Structs -------------------------------
(* The container classes: MinIDQueue, IDSetMinQueue, BitVector, the ID mappers *)
(* and TimestampFlags, as abstract data types.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt

VARIABLE st
(* st.q : queue id -> [n, m]  with m a function from the contained ids to keys
   st.s : set queue id -> [n, m] with m the set of contained ids
   st.b : bit vector id -> [n, m] with m the set of positions that are 1
   st.x : mapper id -> [n, l] with l the increasing sequence of mapped global ids
   st.f : flags id -> [n, m]                                                   *)
Nothing == << >>
EmptyStore == [q |-> Nothing, s |-> Nothing, b |-> Nothing, x |-> Nothing, f |-> Nothing, keys |-> 0]
Put(f, k, v) == (k :> v) @@ f
Range1(n) == 0 .. n - 1

(* ---------------------------------------------------------------- MinIDQueue *)
QPut(q, v) == [st EXCEPT !.q = Put(st.q, q, v)]
QNew(q, n) == QPut(q, [n |-> n, m |-> Nothing])
QHas(q) == q \in DOMAIN st.q
QIn(q, id) == QHas(q) /\ id \in DOMAIN st.q[q].m
QPushPre(q, id, k) == QHas(q) /\ id \in Range1(st.q[q].n) /\ ~QIn(q, id) /\ k \in Range1(st.keys)
QPush(q, id, k) == QPut(q, [st.q[q] EXCEPT !.m = Put(@, id, k)])
QMin(m) == {id \in DOMAIN m : \A o \in DOMAIN m : m[id] <= m[o]}
QPopPre(q) == QHas(q) /\ DOMAIN st.q[q].m # {}
QPop(q, id) == QPut(q, [st.q[q] EXCEPT !.m = Restrict(@, DOMAIN @ \ {id})])
QPopOK(q, id, k) == id \in QMin(st.q[q].m) /\ st.q[q].m[id] = k
QKeyPre(q, id, k) == QIn(q, id) /\ k \in Range1(st.keys)
QDec(q, id, k) == IF k < st.q[q].m[id] THEN QPut(q, [st.q[q] EXCEPT !.m = Put(@, id, k)]) ELSE st
QInc(q, id, k) == IF k > st.q[q].m[id] THEN QPut(q, [st.q[q] EXCEPT !.m = Put(@, id, k)]) ELSE st
QClear(q) == QPut(q, [st.q[q] EXCEPT !.m = Nothing])
QCopy(q, r) == QPut(q, st.q[r])
QSwap(q, r) == [st EXCEPT !.q = Put(Put(st.q, q, st.q[r]), r, st.q[q])]
(* what can be seen of a queue: every contained id with its key, the size, and a minimum *)
QObsOK(v, e) ==
    /\ e.n = v.n /\ e.size = Cardinality(DOMAIN v.m) /\ e.empty = (DOMAIN v.m = {})
    /\ ToSet(e.m) = {<<id, v.m[id]>> : id \in DOMAIN v.m}
    /\ IF DOMAIN v.m = {} THEN TRUE ELSE e.pid \in QMin(v.m) /\ e.pkey = v.m[e.pid]

(* The same operations on many ids at once, for large queues: kv[id + 1] is the key given to id, or -1 if id is not concerned. *)
Given(kv) == {x \in Range1(Len(kv)) : kv[x + 1] # -1}
QPushAllPre(q, kv) == QHas(q) /\ Len(kv) = st.q[q].n /\ Given(kv) \cap DOMAIN st.q[q].m = {}
QPushAll(q, kv) == LET m == st.q[q].m IN QPut(q, [st.q[q] EXCEPT !.m = [x \in Given(kv) \cup DOMAIN m |-> IF kv[x + 1] # -1 THEN kv[x + 1] ELSE m[x]]])
QKeyAllPre(q, kv) == QHas(q) /\ Len(kv) = st.q[q].n /\ Given(kv) \subseteq DOMAIN st.q[q].m
QChanged(q, kv, dec) == LET m == st.q[q].m IN {x \in Given(kv) : IF dec THEN kv[x + 1] < m[x] ELSE kv[x + 1] > m[x]}
QKeyAll(q, kv, dec) == LET m == st.q[q].m  c == QChanged(q, kv, dec) IN QPut(q, [st.q[q] EXCEPT !.m = [x \in DOMAIN m |-> IF kv[x + 1] # -1 /\ x \in c THEN kv[x + 1] ELSE m[x]]])
(* successive pops: distinct elements with their keys in non-decreasing order; what is left is not smaller *)
QPopAllOK(q, ids, keys) == LET m == st.q[q].m  k == Len(ids)  left == DOMAIN m \ ToSet(ids) IN
    /\ Len(keys) = k /\ Cardinality(ToSet(ids)) = k /\ ToSet(ids) \subseteq DOMAIN m
    /\ \A i \in 1 .. k : m[ids[i]] = keys[i]
    /\ \A i \in 1 .. k - 1 : keys[i] <= keys[i + 1]
    /\ (k > 0 => \A x \in left : m[x] >= keys[k])
QPopAll(q, ids) == QPut(q, [st.q[q] EXCEPT !.m = Restrict(@, DOMAIN @ \ ToSet(ids))])
QBigObsOK(v, e) ==
    /\ e.n = v.n /\ e.size = Cardinality(DOMAIN v.m) /\ e.empty = (DOMAIN v.m = {})
    /\ "all" \in DOMAIN e => /\ Len(e.all) = v.n /\ Given(e.all) = DOMAIN v.m
                             /\ \A x \in DOMAIN v.m : e.all[x + 1] = v.m[x]
    /\ IF DOMAIN v.m = {} THEN TRUE ELSE e.pid \in DOMAIN v.m /\ e.pkey = v.m[e.pid] /\ \A x \in DOMAIN v.m : v.m[x] >= e.pkey

(* ------------------------------------------------------------- IDSetMinQueue *)
SPut(s, v) == [st EXCEPT !.s = Put(st.s, s, v)]
SHas(s) == s \in DOMAIN st.s
SNew(s, n) == SPut(s, [n |-> n, m |-> {}])
SMin(m) == IF m = {} THEN -1 ELSE CHOOSE x \in m : \A y \in m : x <= y
SPushPre(s, ids) == SHas(s) /\ ids \subseteq Range1(st.s[s].n)
SPush(s, ids) == SPut(s, [st.s[s] EXCEPT !.m = @ \cup ids])
SPop(s, ids) == SPut(s, [st.s[s] EXCEPT !.m = @ \ ids])
SPopOK(s, id) == id = SMin(st.s[s].m)
(* k successive pops: the k smallest in increasing order, then invalid ids *)
SPopsOK(s, ids) == LET m == st.s[s].m  k == Len(ids)  c == Cardinality(m)  v == IF c < k THEN c ELSE k  got == {ids[i] : i \in 1 .. v} IN
    /\ got \subseteq m
    /\ \A i \in 1 .. v - 1 : ids[i] < ids[i + 1]
    /\ (v > 0 => \A x \in m \ got : x > ids[v])
    /\ \A i \in v + 1 .. k : ids[i] = -1
SClear(s) == SPut(s, [st.s[s] EXCEPT !.m = {}])
SCopy(s, r) == SPut(s, st.s[r])
SObsOK(v, e) == e.n = v.n /\ e.empty = (v.m = {}) /\ e.peek = SMin(v.m) /\ ("m" \in DOMAIN e => ToSet(e.m) = v.m)

(* ----------------------------------------------------------------- BitVector *)
BPut(b, v) == [st EXCEPT !.b = Put(st.b, b, v)]
BHas(b) == b \in DOMAIN st.b
BVal(n, m) == [n |-> n, m |-> m]
FillWith(v, lo, hi) == IF v = "1" THEN lo .. hi ELSE {}
(* Uninitialized parts may hold anything: the observation resolves them. *)
BNewOK(n, v, m) == IF v = "u" THEN m \subseteq Range1(n) ELSE m = FillWith(v, 0, n - 1)
BBit(b, o, x) == LET v == st.b[b]  m == v.m IN
    CASE o \in {"set", "set1", "if1"} -> m \cup {x}
      [] o \in {"reset", "set0"} -> m \ {x}
      [] o = "if0" -> m
      [] o = "toggle" -> IF x \in m THEN m \ {x} ELSE m \cup {x}
BAll(b, o) == LET v == st.b[b] IN
    CASE o \in {"set", "set1"} -> Range1(v.n)
      [] o \in {"reset", "set0"} -> {}
      [] o = "not" -> Range1(v.n) \ v.m
BResizeOK(b, n, v, m) == LET o == st.b[b]  keep == {x \in o.m : x < n} IN
    IF v = "u" THEN m \subseteq Range1(n) /\ {x \in m : x < o.n} = keep
    ELSE m = keep \cup FillWith(v, o.n, n - 1)
(* make_large_enough_for: nothing happens if x is already a position; otherwise the vector grows so that it is *)
BGrowOK(b, x, v, n, m) == LET o == st.b[b] IN
    IF x < o.n THEN n = o.n /\ m = o.m ELSE n > x /\ BResizeOK(b, n, v, m)
BOp(o, x, y) == CASE o = "or" -> x \cup y [] o = "and" -> x \cap y [] o = "xor" -> (x \ y) \cup (y \ x)
BObsOK(v, e) ==
    /\ e.n = v.n /\ e.none = (v.n = 0) /\ ToSet(e.m) = v.m /\ Len(e.m) = e.ct /\ e.pc = e.ct /\ e.cf = v.n - e.ct
    /\ e.all = (e.ct = v.n) /\ e.any = (e.ct > 0) /\ e.blocks = (v.n + 511) \div 512
(* all comparisons between the listed vectors: equality is extensional and < is a strict total order that agrees with it *)
Row(s) == [eq |-> SubSeq(s, 1, 1) = "=", ne |-> SubSeq(s, 2, 2) = "!", lt |-> SubSeq(s, 3, 3) = "<", gt |-> SubSeq(s, 4, 4) = ">",
           le |-> SubSeq(s, 5, 5) = "l", ge |-> SubSeq(s, 6, 6) = "g"]
BCmpOK(list, r) == LET D == DOMAIN list  C == [i \in D |-> [j \in D |-> Row(r[i][j])]]
                       V == [i \in D |-> st.b[list[i]]] IN
    /\ \A i, j \in D : /\ C[i][j].eq = (V[i] = V[j])
                       /\ C[i][j].ne = ~C[i][j].eq
                       /\ C[i][j].gt = C[j][i].lt
                       /\ C[i][j].le = ~C[j][i].lt /\ C[i][j].ge = ~C[i][j].lt
                       /\ Cardinality({x \in {"eq", "lt", "gt"} : C[i][j][x]}) = 1
                       /\ (V[i].n < V[j].n => C[i][j].lt)
    /\ \A i, j, k \in D : C[i][j].lt /\ C[j][k].lt => C[i][k].lt

(* ---------------------------------------------------------------- ID mappers *)
XPut(x, v) == [st EXCEPT !.x = Put(st.x, x, v)]
XNew(x, n, list) == XPut(x, [n |-> n, l |-> SetToSortSeq(ToSet(list), LAMBDA a, b : a < b)])
XAllOK(v, e) == LET k == Len(v.l)  ids == [i \in 1 .. k |-> i - 1] IN
    /\ e.gc = v.n /\ e.lc = k
    /\ e.mapped = v.l /\ e.plain = ids          \* is_global_id_mapped and to_local
    /\ e.mg = v.l /\ e.ml = ids                 \* to_local with a default: exactly the mapped ids have local ids
    /\ \A i \in DOMAIN e.out : e.out[i] = e.inv \* ids beyond the universe
    /\ "glob" \in DOMAIN e => e.glob = v.l      \* to_global is the inverse

(* ------------------------------------------------------------ TimestampFlags *)
FPut(f, v) == [st EXCEPT !.f = Put(st.f, f, v)]
=============================================================================
