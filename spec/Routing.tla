------------------------------ MODULE Routing ------------------------------
(* The state of a program that uses RoutingKit's routing objects, and the       *)
(* operations of the public interface as state transitions.                     *)
(*                                                                              *)
(* Objects (all registries are functions from object numbers to values):        *)
(*   g    input graphs                                                          *)
(*   w    weight vectors owned by the user; they can be changed in place        *)
(*   ch   contraction hierarchies: graph, weights at build time                 *)
(*   cch  customizable contraction hierarchies: graph                           *)
(*   m    CCH metrics: CCH, attached weight vector, weights and distances of    *)
(*        the last customization                                                *)
(*   p    partial customizations: CCH, arcs announced as changed                *)
(*   q    query objects (CH and CCH): phase, sources, targets, pinned nodes     *)
(*   d    Dijkstra objects: labels, queue, settled nodes                        *)
(*   cert verified distance certificate for graphs above SmallNodes             *)
(* Every operation is a pair: OpPre (what the documentation requires of the     *)
(* caller) and OpPost (the next state).  What the code returns is constrained   *)
(* by the predicates ...OK, which only mention distances and paths of the       *)
(* input graph; no hierarchy, order or search is visible here.                  *)
EXTENDS Graph

VARIABLE st

SmallNodes == 24

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == << >>

EmptyStore == [g |-> None, w |-> None, ch |-> None, cch |-> None, m |-> None, p |-> None, q |-> None, d |-> None, par |-> None,
               cert |-> [g |-> NoId]]

(* ------------------------------------------------------------- data ------ *)
GraphPre(id, n, tail, head) == n >= 0 /\ IsGraph(n, tail, head) /\ id \notin DOMAIN st.g
GraphPost(id, n, tail, head) == [st EXCEPT !.g = Put(@, id, [n |-> n, tail |-> tail, head |-> head])]

WeightsPre(id, v) == IsWeight(v) /\ (id \in DOMAIN st.w => Len(v) = Len(st.w[id]))
WeightsPost(id, v) == [st EXCEPT !.w = Put(@, id, v)]

SetWeightPre(id, a, x) == id \in DOMAIN st.w /\ a + 1 \in DOMAIN st.w[id] /\ x \in 0 .. Inf
SetWeightPost(id, a, x) == [st EXCEPT !.w[id][a + 1] = x]

Distances(g, w) == IF g.n <= SmallNodes THEN APSP(g.n, g.tail, g.head, w) ELSE None

(* a certificate: dir "f" gives distances from the seeds, "b" distances to the seeds *)
CertPre(gid, ws, dir, S, pot, pred, ord) ==
    /\ gid \in DOMAIN st.g
    /\ LET g == st.g[gid] IN
         IF dir = "f" THEN CertOK(g.n, g.tail, g.head, ws, S, pot, pred, ord)
                      ELSE CertOK(g.n, g.head, g.tail, ws, S, pot, pred, ord)
CertPost(gid, ws, dir, S, pot) ==
    [st EXCEPT !.cert = [g |-> gid, w |-> ws, dir |-> dir, S |-> S, pot |-> pot]]

(* ------------------------------------------------- hierarchies ----------- *)
BuildPre(h, gid, wid) == gid \in DOMAIN st.g /\ wid \in DOMAIN st.w /\ Len(st.w[wid]) = Len(st.g[gid].tail) /\ h \notin DOMAIN st.ch
BuildPost(h, gid, wid) ==
    [st EXCEPT !.ch = Put(@, h, [g |-> gid, w |-> st.w[wid], D |-> Distances(st.g[gid], st.w[wid])])]

(* copy, move, save+load: a hierarchy with the same meaning *)
AliasChPre(h, old) == old \in DOMAIN st.ch
AliasChPost(h, old) == [st EXCEPT !.ch = Put(@, h, st.ch[old])]

(* a damaged image.  Readers that know the size of the image check it against the header; the others notice a  *)
(* missing end.  Nothing is promised for damage that keeps magic number and size.                               *)
Sized == {"streamsize", "funcsize", "file"}
MustReject(reader, kind) == kind \in {"trunc", "magic"} \/ (kind \in {"extend", "count"} /\ reader \in Sized)
DamagedChPre(h, reader, kind) == h \in DOMAIN st.ch /\ kind \in {"trunc", "magic", "extend", "count"}
DamagedChOK(reader, kind, res) == MustReject(reader, kind) => res = "rejected"

CchPre(c, gid) == gid \in DOMAIN st.g
CchPost(c, gid) == [st EXCEPT !.cch = Put(@, c, [g |-> gid])]
AliasCchPre(c, old) == old \in DOMAIN st.cch
AliasCchPost(c, old) == [st EXCEPT !.cch = Put(@, c, st.cch[old])]

(* ------------------------------------------------- metrics --------------- *)
FitsCch(c, wid) == c \in DOMAIN st.cch /\ wid \in DOMAIN st.w /\ Len(st.w[wid]) = Len(st.g[st.cch[c].g].tail)

MetricPre(m, c, wid) == FitsCch(c, wid)
MetricPost(m, c, wid) ==
    [st EXCEPT !.m = Put(@, m, [c |-> c, w |-> wid, ok |-> FALSE, snap |-> None, D |-> None, ver |-> 0])]
AliasMetricPre(m, old) == old \in DOMAIN st.m
AliasMetricPost(m, old) == [st EXCEPT !.m = Put(@, m, st.m[old])]

(* reset(weights): attaches other weights, takes effect with the next customization *)
MetricWeightsPre(m, wid) == m \in DOMAIN st.m /\ FitsCch(st.m[m].c, wid)
MetricWeightsPost(m, wid) == [st EXCEPT !.m[m].w = wid]
(* reset(cch, weights) *)
MetricRebindPre(m, c, wid) == m \in DOMAIN st.m /\ FitsCch(c, wid)
MetricRebindPost(m, c, wid) == [st EXCEPT !.m[m].c = c, !.m[m].w = wid, !.m[m].ok = FALSE, !.m[m].ver = @ + 1]

CustomizePre(m) == m \in DOMAIN st.m /\ FitsCch(st.m[m].c, st.m[m].w)
CustomizePost(m) ==
    LET mm == st.m[m]  ws == st.w[mm.w]  g == st.g[st.cch[mm.c].g] IN
    [st EXCEPT !.m[m] = [mm EXCEPT !.ok = TRUE, !.snap = ws, !.ver = @ + 1,
                            !.D = IF mm.ok /\ mm.snap = ws THEN mm.D ELSE Distances(g, ws)]]

(* a metric answers according to its last customization as long as the weights have not been touched since *)
MetricFresh(m) == m \in DOMAIN st.m /\ st.m[m].ok /\ st.w[st.m[m].w] = st.m[m].snap

(* CH extracted from a CCH metric (perfect customization); customizes the metric as a side effect *)
PerfectPre(h, m) == CustomizePre(m) /\ h \notin DOMAIN st.ch
PerfectPost(h, m) ==
    LET s2 == CustomizePost(m)  mm == s2.m[m] IN
    [s2 EXCEPT !.ch = Put(@, h, [g |-> st.cch[mm.c].g, w |-> mm.snap, D |-> mm.D])]

ParPre(x, c) == c \in DOMAIN st.cch
ParPost(x, c) == [st EXCEPT !.par = Put(@, x, [c |-> c])]
ParCustomizePre(x, m) == x \in DOMAIN st.par /\ CustomizePre(m) /\ st.par[x].c = st.m[m].c

(* ------------------------------------------------- partial customization - *)
PartPre(x, c) == c \in DOMAIN st.cch
PartPost(x, c) == [st EXCEPT !.p = Put(@, x, [c |-> c, upd |-> {}])]
PartResetPre(x) == x \in DOMAIN st.p
PartResetPost(x) == [st EXCEPT !.p[x].upd = {}]
PartUpdatePre(x, a) == x \in DOMAIN st.p /\ a + 1 \in DOMAIN st.g[st.cch[st.p[x].c].g].tail
PartUpdatePost(x, a) == [st EXCEPT !.p[x].upd = @ \cup {a}]
PartCustomizePre(x, m) ==
    /\ x \in DOMAIN st.p /\ m \in DOMAIN st.m
    /\ st.p[x].c = st.m[m].c
    /\ st.m[m].ok
    /\ \A a \in DOMAIN st.m[m].snap : st.m[m].snap[a] # st.w[st.m[m].w][a] => a - 1 \in st.p[x].upd
PartCustomizePost(x, m) ==
    LET s2 == CustomizePost(m) IN [s2 EXCEPT !.p[x].upd = {}]

(* ------------------------------------------------- queries --------------- *)
Fresh0 == [ph |-> "init", S |-> None, T |-> None, pins |-> None, stamp |-> 0]
QueryPre(q, kind, b) == IF kind = "ch" THEN b \in DOMAIN st.ch ELSE b \in DOMAIN st.m
CchOf(kind, b) == IF kind = "cch" THEN st.m[b].c ELSE NoId
QueryPost(q, kind, b) == [st EXCEPT !.q = Put(@, q, [kind |-> kind, b |-> b, c |-> CchOf(kind, b)] @@ Fresh0)]
DefaultQueryPost(q, kind) == [st EXCEPT !.q = Put(@, q, [kind |-> kind, b |-> NoId, c |-> NoId] @@ Fresh0)]
AliasQueryPre(q, old) == old \in DOMAIN st.q
AliasQueryPost(q, old) == [st EXCEPT !.q = Put(@, q, st.q[old])]

(* a query object is bound to the CCH its metric had when it was bound to the metric *)
Attached(q) == q \in DOMAIN st.q /\ st.q[q].b # NoId /\ CchOf(st.q[q].kind, st.q[q].b) = st.q[q].c
QResetPre(q) == Attached(q)
QResetPost(q) == [st EXCEPT !.q[q] = [kind |-> @.kind, b |-> @.b, c |-> @.c] @@ Fresh0]
QRebindPre(q, b) == q \in DOMAIN st.q /\ QueryPre(q, st.q[q].kind, b)
QRebindPost(q, b) == [st EXCEPT !.q[q] = [kind |-> @.kind, b |-> b, c |-> CchOf(@.kind, b)] @@ Fresh0]

(* the graph, weights and distances a query object answers for *)
View(kind, b) ==
    IF kind = "ch" THEN LET h == st.ch[b] IN [gid |-> h.g, g |-> st.g[h.g], w |-> h.w, D |-> h.D]
                   ELSE LET m == st.m[b] IN [gid |-> st.cch[m.c].g, g |-> st.g[st.cch[m.c].g], w |-> m.snap, D |-> m.D]
Usable(kind, b) == IF kind = "ch" THEN b \in DOMAIN st.ch ELSE MetricFresh(b)
(* The contents of a hierarchy. A side has an adjacency array over ranks; arc x -> y of the forward side stands for a walk from the *)
(* node of rank x to that of rank y, of the backward side for a walk from y to x. An arc is an input arc (orig) or consists of the  *)
(* two walks a (backward side) and b (forward side) that meet in a common lower node.                                               *)
IsPerm(s) == \A i \in 0 .. Len(s) - 1 : \E j \in DOMAIN s : s[j] = i
SideShape(n, s) ==
    /\ Len(s.first) = n + 1 /\ s.first[1] = 0 /\ s.first[n + 1] = Len(s.head) /\ \A i \in 1 .. n : s.first[i] <= s.first[i + 1]
    /\ \A f \in {s.w, s.a, s.b, s.orig} : Len(f) = Len(s.head)
    /\ \A x \in 1 .. n : \A j \in s.first[x] + 1 .. s.first[x + 1] : s.head[j] \in x .. n - 1
(* what every acceptable hierarchy satisfies *)
ChShape(e) ==
    /\ Len(e.rank) = e.n /\ Len(e.order) = e.n /\ IsPerm(e.order) /\ \A i \in 1 .. e.n : e.rank[e.order[i] + 1] = i - 1
    /\ SideShape(e.n, e.F) /\ SideShape(e.n, e.B)
    /\ \A s \in {e.F, e.B} : \A j \in DOMAIN s.head :
          IF s.orig[j] = 1 THEN s.a[j] # -1 /\ s.b[j] \in 0 .. e.n - 1
          ELSE /\ s.a[j] \in 0 .. Len(e.B.head) - 1 /\ s.b[j] \in 0 .. Len(e.F.head) - 1
               /\ e.F.w[s.b[j] + 1] <= s.w[j] /\ e.B.w[s.a[j] + 1] = s.w[j] - e.F.w[s.b[j] + 1]
(* additionally: it describes this graph *)
ChConsistent(v, e) ==
    LET TailsOf(s) == TLCEval([j \in DOMAIN s.head |-> CHOOSE x \in 0 .. e.n - 1 : s.first[x + 1] < j /\ j <= s.first[x + 2]])
        ft == TailsOf(e.F)  bt == TailsOf(e.B)
        Sorted(s) == \A x \in 1 .. e.n : \A j \in s.first[x] + 1 .. s.first[x + 1] - 1 : s.head[j] < s.head[j + 1]
        SideOK(s, t, fw) == \A j \in DOMAIN s.head :
            LET from == IF fw THEN t[j] ELSE s.head[j]  to == IF fw THEN s.head[j] ELSE t[j] IN
            IF s.orig[j] = 1
            THEN /\ s.a[j] \in 0 .. Len(v.g.head) - 1 /\ v.g.tail[s.a[j] + 1] = e.order[from + 1] /\ v.g.head[s.a[j] + 1] = e.order[to + 1] /\ s.w[j] = v.w[s.a[j] + 1]
            ELSE LET a == s.a[j] + 1  b == s.b[j] + 1 IN bt[a] = ft[b] /\ bt[a] < t[j] /\ e.B.head[a] = from /\ e.F.head[b] = to IN
    e.n = v.g.n /\ Sorted(e.F) /\ Sorted(e.B) /\ SideOK(e.F, ft, TRUE) /\ SideOK(e.B, bt, FALSE)
(* the checker accepts hierarchies that describe their graph and rejects those without the right shape *)
ChDumpPre(h) == h \in DOMAIN st.ch
ChDumpOK(h, e) == /\ e.ok => ChShape(e)
                  /\ IF e.edited THEN ~e.ok => ~(ChShape(e) /\ ChConsistent(View("ch", h), e)) ELSE e.ok /\ ChConsistent(View("ch", h), e)

(* The contents of a customizable hierarchy. Nodes are eliminated in the given order; eliminating x connects every pair of nodes     *)
(* above x that are both connected to x. D is a function of pairs of ranks: the length of a shortest path that only runs through   *)
(* eliminated nodes, Inf if there is none. Lower(n, D)[x] is D when exactly the nodes below x have been eliminated.                  *)
Eliminate(n, D, x) == LET In == {i \in x + 1 .. n - 1 : D[i][x] < Inf}  Out == {j \in x + 1 .. n - 1 : D[x][j] < Inf} IN
    [i \in 0 .. n - 1 |-> IF i \notin In THEN D[i]
                          ELSE [j \in 0 .. n - 1 |-> IF j \in Out /\ j # i THEN Min2(D[i][j], SAdd(D[i][x], D[x][j])) ELSE D[i][j]]]
(* the distance between two nodes stops changing when the lower of them is reached, for only pairs above x change *)
Eliminated(n, D) == LET el(acc, x) == TLCEval(Eliminate(n, acc, x - 1)) IN FoldLeft(el, D, [x \in 1 .. n |-> x])
RankMatrix(g, rank, w, sym) ==
    LET A == [i \in 0 .. g.n - 1 |-> [j \in 0 .. g.n - 1 |-> Inf]]
        put(acc, a) == LET x == rank[g.tail[a] + 1]  y == rank[g.head[a] + 1]  c == IF sym THEN 0 ELSE w[a] IN
                       IF x = y THEN acc
                       ELSE LET f == TLCEval([acc EXCEPT ![x][y] = Min2(@, c)]) IN IF sym THEN TLCEval([f EXCEPT ![y][x] = 0]) ELSE f
    IN FoldLeft(put, A, [a \in DOMAIN g.tail |-> a])
Zero(g) == [a \in DOMAIN g.tail |-> 0]
CchDumpPre(c) == c \in DOMAIN st.cch
CchDumpOK(c, e) ==
    LET g == st.g[st.cch[c].g]  n == g.n  k == Len(e.tail)
        S == Eliminated(n, RankMatrix(g, e.rank, None, TRUE))            (* connected through lower nodes, whatever the direction *)
        R == IF e.filter THEN Eliminated(n, RankMatrix(g, e.rank, Zero(g), FALSE)) ELSE None   (* can ever be finite *)
        Keep(x, y) == IF e.filter THEN R[x][y] < Inf \/ R[y][x] < Inf ELSE S[x][y] < Inf
        Upper(x) == {y \in x + 1 .. n - 1 : S[x][y] < Inf}
        Climb[x \in 0 .. n] == IF x = n THEN {} ELSE LET y == e.parent[x + 1] IN IF y = NoId THEN {} ELSE {y} \cup Climb[y]
    IN
    /\ e.n = n /\ e.ic = Len(g.tail) /\ e.cc = k /\ Len(e.head) = k
    /\ e.order = e.given /\ Len(e.rank) = n /\ \A i \in 1 .. n : e.rank[e.order[i] + 1] = i - 1
    (* the arcs: each pair once, lower end first *)
    /\ {<<e.tail[j], e.head[j]>> : j \in 1 .. k} = {p \in (0 .. n - 1) \X (0 .. n - 1) : p[1] < p[2] /\ Keep(p[1], p[2])}
    /\ Cardinality({<<e.tail[j], e.head[j]>> : j \in 1 .. k}) = k
    /\ Len(e.first) = n + 1 /\ e.first[1] = 0 /\ e.first[n + 1] = k
    /\ \A x \in 1 .. n : e.first[x] <= e.first[x + 1] /\ \A j \in e.first[x] + 1 .. e.first[x + 1] : e.tail[j] = x - 1
    (* the elimination tree *)
    /\ Len(e.parent) = n
    /\ \A x \in 0 .. n - 1 : e.parent[x + 1] = NoId \/ e.parent[x + 1] \in x + 1 .. n - 1
    /\ \A x \in 0 .. n - 1 : e.parent[x + 1] = MinOr(Upper(x), NoId)
    /\ \A j \in 1 .. k : e.head[j] \in Climb[e.tail[j]]
    (* every input arc lies on the arc of its end points; loops lie nowhere *)
    /\ Len(e.map) = Len(g.tail) /\ Len(e.up) = Len(g.tail)
    /\ \A a \in DOMAIN g.tail : LET x == e.rank[g.tail[a] + 1]  y == e.rank[g.head[a] + 1]  m == e.map[a] IN
          IF x = y THEN m = NoId
          ELSE m \in 0 .. k - 1 /\ e.tail[m + 1] = Min2(x, y) /\ e.head[m + 1] = (IF x < y THEN y ELSE x) /\ e.up[a] = (IF x < y THEN 1 ELSE 0)
(* a customized metric: the weight of an arc is the length of a shortest path between its ends through lower nodes *)
MetricDumpPre(m) == MetricFresh(m)
MetricDumpOK(m, e) ==
    LET g == st.g[st.cch[st.m[m].c].g]  D == Eliminated(g.n, RankMatrix(g, e.rank, st.m[m].snap, FALSE)) IN
    /\ e.n = g.n /\ Len(e.fw) = Len(e.tail) /\ Len(e.bw) = Len(e.tail)
    /\ \A j \in DOMAIN e.tail : e.fw[j] = D[e.tail[j]][e.head[j]] /\ e.bw[j] = D[e.head[j]][e.tail[j]]

(* a hierarchy extracted from an unfiltered CCH: exactly the arcs that are shortest paths. Removing filtered arcs loses some triangles *)
(* that show that an arc is too long; arcs may then be longer than a shortest path, but none that is one is missing.               *)
PerfectDumpOK(h, e) ==
    LET v == View("ch", h)  L == Eliminated(v.g.n, RankMatrix(v.g, e.rank, v.w, FALSE))
        Dist(x, y) == v.D[e.order[x + 1]][e.order[y + 1]]
        Pairs == {p \in (0 .. v.g.n - 1) \X (0 .. v.g.n - 1) : p[1] < p[2]}
        Arcs(s) == UNION {{<<x, s.head[j], s.w[j]>> : j \in s.first[x + 1] + 1 .. s.first[x + 2]} : x \in 0 .. v.g.n - 1}
        SideOK(s, M(_, _), Dst(_, _)) == LET all == {<<p[1], p[2], M(p[1], p[2])>> : p \in {p \in Pairs : M(p[1], p[2]) < Inf}}
                                  best == {t \in all : t[3] = Dst(t[1], t[2])} IN
            IF e.filter THEN best \subseteq Arcs(s) /\ Arcs(s) \subseteq all ELSE Arcs(s) = best
    IN /\ ChDumpOK(h, e)
       /\ SideOK(e.F, LAMBDA x, y : L[x][y], LAMBDA x, y : Dist(x, y))
       /\ SideOK(e.B, LAMBDA x, y : L[y][x], LAMBDA x, y : Dist(y, x))

Stamp(kind, b) == IF kind = "ch" THEN 0 ELSE st.m[b].ver
NodeCount(q) == LET r == st.q[q] IN
    IF r.kind = "ch" THEN st.g[st.ch[r.b].g].n ELSE st.g[st.cch[st.m[r.b].c].g].n

AddSeed(S, x, off) == IF x \in DOMAIN S /\ S[x] <= off THEN S ELSE Put(S, x, off)

AddSourcePre(q, s, off) == Attached(q) /\ st.q[q].ph \in {"init", "tpin"} /\ s \in Nodes(NodeCount(q)) /\ off \in 0 .. Inf - 1
AddSourcePost(q, s, off) == [st EXCEPT !.q[q].S = AddSeed(@, s, off)]
AddTargetPre(q, t, off) == Attached(q) /\ st.q[q].ph \in {"init", "spin"} /\ t \in Nodes(NodeCount(q)) /\ off \in 0 .. Inf - 1
AddTargetPost(q, t, off) == [st EXCEPT !.q[q].T = AddSeed(@, t, off)]

RunPre(q) == Attached(q) /\ st.q[q].ph = "init" /\ st.q[q].S # None /\ st.q[q].T # None /\ Usable(st.q[q].kind, st.q[q].b)
SetPhase(q, ph) == [st EXCEPT !.q[q].ph = ph, !.q[q].stamp = Stamp(st.q[q].kind, st.q[q].b)]

PinPre(q, list) == Attached(q) /\ st.q[q].ph = "init" /\ st.q[q].S = None /\ st.q[q].T = None
                   /\ \A i \in DOMAIN list : list[i] \in Nodes(NodeCount(q))
PinPost(q, ph, list) == [st EXCEPT !.q[q].ph = ph, !.q[q].pins = list]
RunPinnedPre(q, ph) == Attached(q) /\ st.q[q].ph = ph /\ Usable(st.q[q].kind, st.q[q].b)
                       /\ (ph = "tpin" => st.q[q].S # None) /\ (ph = "spin" => st.q[q].T # None)
ResetSourcePre(q) == Attached(q) /\ st.q[q].ph \in {"tpin", "trun"}
ResetSourcePost(q) == [st EXCEPT !.q[q].ph = "tpin", !.q[q].S = None]
ResetTargetPre(q) == Attached(q) /\ st.q[q].ph \in {"spin", "srun"}
ResetTargetPost(q) == [st EXCEPT !.q[q].ph = "spin", !.q[q].T = None]

(* results may be fetched while the underlying object is as it was during the run *)
ResultPre(q, ph) == /\ Attached(q) /\ st.q[q].ph = ph
                    /\ Usable(st.q[q].kind, st.q[q].b) /\ st.q[q].stamp = Stamp(st.q[q].kind, st.q[q].b)

(* distance of every node from the sources S, to the targets T *)
HasCert(v, dir, S) == st.cert.g = v.gid /\ st.cert.dir = dir /\ st.cert.S = S /\ st.cert.w = v.w
Pot(v, S) == IF v.D # None \/ v.g.n = 0 THEN FromSeeds(v.g.n, v.D, S)
             ELSE IF HasCert(v, "f", S) THEN [x \in Nodes(v.g.n) |-> st.cert.pot[x + 1]] ELSE None
BackPot(v, T) == IF v.D # None \/ v.g.n = 0 THEN ToSeeds(v.g.n, v.D, T)
                 ELSE IF HasCert(v, "b", T) THEN [x \in Nodes(v.g.n) |-> st.cert.pot[x + 1]] ELSE None

(* length of a shortest path from the sources to the targets *)
Best(v, S, T) == LET pot == Pot(v, S) IN MinOr({SAdd(pot[t], T[t]) : t \in DOMAIN T}, Inf)

(* a walk from a source to a target that realizes the length best *)
WalkFits(v, S, T, best, arcs, src, tgt) ==
    /\ src \in DOMAIN S /\ tgt \in DOMAIN T
    /\ IsWalk(v.g.tail, v.g.head, src, tgt, arcs)
    /\ SAdd(SAdd(S[src], WalkLength(v.w, arcs)), T[tgt]) = best

SomeWalkFits(v, S, T, best, arcs) ==
    IF arcs = << >> THEN \E x \in DOMAIN S \cap DOMAIN T : SAdd(S[x], T[x]) = best
    ELSE /\ \A i \in DOMAIN arcs : arcs[i] + 1 \in DOMAIN v.g.tail
         /\ WalkFits(v, S, T, best, arcs, v.g.tail[arcs[1] + 1], v.g.head[arcs[Len(arcs)] + 1])

(* What a finished query reports.  r is a record; only the fields that were asked for are present. *)
Has(r, f) == f \in DOMAIN r
RouteOK(v, S, T, r) ==
    LET best == Best(v, S, T) IN
    /\ Has(r, "dist") => r.dist = best
    /\ IF best = Inf
       THEN /\ Has(r, "src") => r.src = NoId
            /\ Has(r, "tgt") => r.tgt = NoId
            /\ Has(r, "arcs") => r.arcs = << >>
            /\ Has(r, "nodes") => r.nodes = << >>
       ELSE /\ Has(r, "src") /\ Has(r, "tgt") =>
                 /\ r.src \in DOMAIN S /\ r.tgt \in DOMAIN T
                 /\ v.D # None => SAdd(SAdd(S[r.src], v.D[r.src][r.tgt]), T[r.tgt]) = best
            /\ Has(r, "arcs") =>
                 IF Has(r, "src") /\ Has(r, "tgt") THEN WalkFits(v, S, T, best, r.arcs, r.src, r.tgt)
                                                   ELSE SomeWalkFits(v, S, T, best, r.arcs)
            /\ Has(r, "nodes") =>
                 /\ r.nodes # << >>
                 /\ r.nodes[1] \in DOMAIN S
                 /\ r.nodes[Len(r.nodes)] \in DOMAIN T
                 /\ Has(r, "src") => r.nodes[1] = r.src
                 /\ Has(r, "tgt") => r.nodes[Len(r.nodes)] = r.tgt
                 /\ Has(r, "arcs") => r.nodes = NodesOfWalk(v.g.head, r.nodes[1], r.arcs)

(* ---- pinned queries: r.dists[i] is the distance between the sources and pin i ---- *)
PinnedToOK(v, S, pins, r) ==
    LET pot == Pot(v, S) IN
    /\ Has(r, "dists") => Len(r.dists) = Len(pins) /\ \A i \in DOMAIN pins : r.dists[i] = pot[pins[i]]
    /\ Has(r, "used") => /\ Len(r.used) = Len(pins)
                         /\ \A i \in DOMAIN pins :
                              IF pot[pins[i]] = Inf THEN r.used[i] = NoId
                              ELSE /\ r.used[i] \in DOMAIN S
                                   /\ v.D # None => SAdd(S[r.used[i]], v.D[r.used[i]][pins[i]]) = pot[pins[i]]
    /\ Has(r, "paths") => /\ Len(r.paths) = Len(pins)
                          /\ \A i \in DOMAIN pins :
                               IF pot[pins[i]] = Inf THEN r.paths[i] = << >>
                               ELSE /\ SomeWalkFits(v, S, (pins[i] :> 0), pot[pins[i]], r.paths[i])
                                    /\ Has(r, "used") /\ r.paths[i] # << >> => v.g.tail[r.paths[i][1] + 1] = r.used[i]
PinnedFromOK(v, T, pins, r) ==
    LET pot == BackPot(v, T) IN
    /\ Has(r, "dists") => Len(r.dists) = Len(pins) /\ \A i \in DOMAIN pins : r.dists[i] = pot[pins[i]]
    /\ Has(r, "used") => /\ Len(r.used) = Len(pins)
                         /\ \A i \in DOMAIN pins :
                              IF pot[pins[i]] = Inf THEN r.used[i] = NoId
                              ELSE /\ r.used[i] \in DOMAIN T
                                   /\ v.D # None => SAdd(v.D[pins[i]][r.used[i]], T[r.used[i]]) = pot[pins[i]]
    /\ Has(r, "paths") => /\ Len(r.paths) = Len(pins)
                          /\ \A i \in DOMAIN pins :
                               IF pot[pins[i]] = Inf THEN r.paths[i] = << >>
                               ELSE /\ SomeWalkFits(v, (pins[i] :> 0), T, pot[pins[i]], r.paths[i])
                                    /\ Has(r, "used") /\ r.paths[i] # << >> =>
                                         v.g.head[r.paths[i][Len(r.paths[i])] + 1] = r.used[i]

(* ---- extra weights: the value obtained by linking the extra weights along the path, in path order ---- *)
(* unsigned values saturate at Inf, ints saturate at the ends of their range *)
MinInt == -2147483647 - 1
IAdd(l, r) == IF l > 0 THEN IF r > Inf - l THEN Inf ELSE l + r
              ELSE IF r < MinInt - l THEN MinInt ELSE l + r
LinkU(x, arcs) == IF arcs = << >> THEN 0 ELSE FoldLeft(LAMBDA acc, a : SAdd(acc, x[a + 1]), 0, arcs)

(* ------------------------------------------------- Dijkstra -------------- *)
(* effective weight of arc a when leaving at time t; per > 0: departures only at multiples of per (FIFO) *)
Eff(ws, per, a, t) == IF ws[a] = Inf \/ per = 0 THEN ws[a] ELSE ws[a] + ((per - (t % per)) % per)

DijPre(x, gid) == gid \in DOMAIN st.g
DijPost(x, gid) == [st EXCEPT !.d = Put(@, x, [g |-> gid, lab |-> None, done |-> {}, S |-> None, w |-> None, per |-> 0])]
DijAddPre(x, s, off) == x \in DOMAIN st.d /\ s \in Nodes(st.g[st.d[x].g].n) /\ s \notin DOMAIN st.d[x].lab /\ st.d[x].done = {} /\ off \in 0 .. Inf - 1
DijAddPost(x, s, off) == [st EXCEPT !.d[x].lab = Put(@, s, off), !.d[x].S = Put(@, s, off)]

DijFrontier(x) == DOMAIN st.d[x].lab \ st.d[x].done
DijSettlePre(x, ws, per) == x \in DOMAIN st.d /\ DijFrontier(x) # {} /\ Len(ws) = Len(st.g[st.d[x].g].tail)
                            /\ (st.d[x].done = {} \/ (st.d[x].w = ws /\ st.d[x].per = per))
DijSettleOK(x, node, dist) ==
    LET d == st.d[x] IN node \in DijFrontier(x) /\ dist = d.lab[node] /\ \A y \in DijFrontier(x) : d.lab[node] <= d.lab[y]
DijSettlePost(x, ws, per, node) ==
    LET d == st.d[x]  g == st.g[d.g]
        out == {a \in DOMAIN g.tail : g.tail[a] = node /\ ws[a] < Inf /\ g.head[a] \notin d.done /\ g.head[a] # node}
        val(v) == MinOr({d.lab[node] + Eff(ws, per, a, d.lab[node]) : a \in {b \in out : g.head[b] = v}}, Inf)
        lab2 == [v \in DOMAIN d.lab \cup {g.head[a] : a \in out} |->
                    IF v \in DOMAIN d.lab THEN Min2(d.lab[v], val(v)) ELSE val(v)]
    IN [st EXCEPT !.d[x] = [d EXCEPT !.lab = lab2, !.done = @ \cup {node}, !.w = ws, !.per = per]]

(* arrival time of a walk that starts at s with the offset of s *)
Arrival(d, arcs, s) == FoldLeft(LAMBDA t, a : IF t = Inf THEN Inf ELSE SAdd(t, Eff(d.w, d.per, a + 1, t)), d.S[s], arcs)

DijStateOK(x, r) ==
    LET d == st.d[x]  g == st.g[d.g] IN
    /\ Has(r, "finished") => r.finished = (DijFrontier(x) = {})
    /\ Has(r, "reached") => Len(r.reached) = g.n /\ \A v \in Nodes(g.n) : r.reached[v + 1] = (v \in d.done)
    /\ Has(r, "dists") => Len(r.dists) = g.n /\ \A v \in Nodes(g.n) : r.dists[v + 1] = IF v \in d.done THEN d.lab[v] ELSE Inf
    /\ Has(r, "arcs") => Len(r.arcs) = g.n /\ Len(r.nodes) = g.n /\
         \A v \in Nodes(g.n) :
            IF v \notin d.done THEN r.arcs[v + 1] = << >> /\ r.nodes[v + 1] = << >>
            ELSE LET arcs == r.arcs[v + 1]  nodes == r.nodes[v + 1] IN
                 /\ nodes # << >> /\ nodes[1] \in DOMAIN d.S
                 /\ IsWalk(g.tail, g.head, nodes[1], v, arcs)
                 /\ nodes = NodesOfWalk(g.head, nodes[1], arcs)
                 /\ Arrival(d, arcs, nodes[1]) = d.lab[v]

DijAllOK(x, ws, r) ==
    LET d == st.d[x]  g == st.g[d.g]  pot == st.cert.pot  settled == ToSet(r.nodes) IN
    /\ st.cert.g = d.g /\ st.cert.dir = "f" /\ st.cert.S = d.S /\ st.cert.w = ws
    /\ Len(r.nodes) = Cardinality(settled) /\ settled = {v \in Nodes(g.n) : pot[v + 1] < Inf}
    /\ \A i \in DOMAIN r.nodes : r.settled[i] = pot[r.nodes[i] + 1]
    /\ \A i \in 1 .. Len(r.nodes) - 1 : r.settled[i] <= r.settled[i + 1]
    /\ r.finished /\ r.dists = pot
    /\ \A i \in DOMAIN r.paths : LET p == r.paths[i] IN
         IF pot[p.t + 1] = Inf THEN p.arcs = << >> /\ p.nodes = << >>
         ELSE /\ p.nodes # << >> /\ p.nodes[1] \in DOMAIN d.S /\ IsWalk(g.tail, g.head, p.nodes[1], p.t, p.arcs)
              /\ p.nodes = NodesOfWalk(g.head, p.nodes[1], p.arcs)
              /\ SAdd(d.S[p.nodes[1]], WalkLength(ws, p.arcs)) = pot[p.t + 1]
=============================================================================
