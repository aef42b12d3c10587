---------------------------------- MODULE Osm ----------------------------------
(* OSM files and what is made of them.                                          *)
(* A file is a sequence of blocks.  A block has a kind: "data" with items,      *)
(* "bad" for a block that cannot be unpacked, anything else carries no data.    *)
(* Items are nodes (t = "n"), ways ("w"), relations ("r"), and "bad": an        *)
(* element of kind "of" that cannot be decoded ("b": the whole block).          *)
EXTENDS OsmProfile

Items(B) == FlattenSeq([k \in DOMAIN B |-> IF B[k].kind = "data" THEN B[k].items ELSE << >>])
AnyBad(B) == \E k \in DOMAIN B : B[k].kind = "bad"
Kind(s, F) == SelectSeq(s, LAMBDA x : x.t \in F)

(* ------------------------------------------------------------------- decoding *)
(* One scan for the kinds F: the items reported, and whether the scan fails. *)
Scan(B, F) ==
    LET stop == {k \in DOMAIN B : B[k].kind = "bad"}
        upto == IF stop = {} THEN Len(B) ELSE Min(stop) - 1
        s == FlattenSeq([k \in 1 .. upto |-> IF B[k].kind = "data" THEN B[k].items ELSE << >>])
        hit == {i \in DOMAIN s : s[i].t = "bad" /\ s[i].of \in F \cup {"b"}}
        good == IF hit = {} THEN s ELSE SubSeq(s, 1, Min(hit) - 1) IN
    [items |-> Kind(good, F), fails |-> stop # {} \/ hit # {}]
(* the ordered reader: first all nodes, then all ways, then all relations *)
Ordered(B, F) ==
    LET S(k) == IF k \in F THEN Scan(B, {k}) ELSE [items |-> << >>, fails |-> FALSE]
        n == S("n")  w == S("w")  r == S("r") IN
    IF n.fails THEN n ELSE IF w.fails THEN [items |-> n.items \o w.items, fails |-> TRUE] ELSE [items |-> n.items \o w.items \o r.items, fails |-> r.fails]
TagPairs(T) == {<<T[i].k, T[i].v>> : i \in DOMAIN T}
SameItem(x, c) ==
    /\ c.t = x.t /\ c.id = x.id /\ TagPairs(c.tags) = TagPairs(x.tags) /\ Len(c.tags) = Len(x.tags)
    /\ x.t = "n" /\ "any" \notin DOMAIN x => c.lat = x.lat /\ c.lon = x.lon
    /\ x.t = "w" => c.nodes = x.nodes
    /\ x.t = "r" => c.mem = x.mem
(* an undecodable element of one kind after elements of another kind: a file scanned once may report the latter *)
KindNo(x) == CASE x.t = "n" -> 1 [] x.t = "w" -> 2 [] OTHER -> 3
OneScan(B, F) == LET s == Scan(B, F) IN IF s.fails /\ \A i \in 1 .. Len(s.items) - 1 : KindNo(s.items[i]) <= KindNo(s.items[i + 1]) \/ "any" \in DOMAIN s.items[i + 1] THEN {s} ELSE {}
ReadOK(B, e) ==
    LET F == ToSet(e.F)
        n == Len(e.calls) IN
    \E want \in IF e.mode = "unordered" THEN {Scan(B, F)} ELSE {Ordered(B, F)} \cup OneScan(B, F) :
    /\ n <= Len(want.items) /\ \A i \in 1 .. n : SameItem(want.items[i], e.calls[i])
    /\ CASE e.res = "ok" -> ~want.fails /\ n = Len(want.items) /\ (e.stop = 0 \/ n < e.stop)
         [] e.res = "user" -> n = e.stop
         [] e.res = "error" -> want.fails /\ (e.stop = 0 \/ n < e.stop)

(* ------------------------------------------------------------- classification *)
Ways(B, used(_)) == SelectSeq(Kind(Items(B), {"w"}), LAMBDA w : Len(w.ns) >= 2 /\ used(w.tags))
NodesOf(W) == UNION {ToSet(W[k].ns) : k \in DOMAIN W}
(* nodes that occur at least twice *)
Repeated(W) == LET s == SortSeq(FlattenSeq([k \in DOMAIN W |-> W[k].ns]), LAMBDA a, b : a < b) IN {s[i] : i \in {i \in 1 .. Len(s) - 1 : s[i] = s[i + 1]}}
Ends(W) == {W[k].ns[1] : k \in DOMAIN W} \cup {W[k].ns[Len(W[k].ns)] : k \in DOMAIN W}
(* X: nodes the user wants as routing nodes *)
Modelling(W, X) == NodesOf(W) \cup X
Routing(W, X, all) == X \cup (IF all THEN NodesOf(W) ELSE Ends(W) \cup Repeated(W))
Rank(S, v) == Cardinality({u \in S : u < v})
Ranks(S) == TLCEval([v \in S |-> Rank(S, v)])
SortedSet(S, s) == ToSet(s) = S /\ \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]

(* ----------------------------------------------------------------------- arcs *)
(* W: the routing ways, R: routing nodes, dir(w): direction of a way. Arcs in the order of the ways. *)
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
WayArcs(w, R, d, wid) ==
    LET P == SetToSortSeq({j \in DOMAIN w.ns : w.ns[j] \in R}, LAMBDA a, b : a < b)
        A(k) == LET p == P[k]  q == P[k + 1]  seg == SubSeq(w.seg, p, q - 1)
                    cm == IF \E i \in DOMAIN seg : seg[i] < 0 THEN -1 ELSE Sum(seg) IN
                [u |-> w.ns[p], v |-> w.ns[q], way |-> w.i, wid |-> wid, anti |-> FALSE, geo |-> SubSeq(w.ns, p + 1, q - 1), cm |-> cm, parts |-> q - p, tags |-> w.tags]
        Rev(a) == [a EXCEPT !.u = a.v, !.v = a.u, !.anti = TRUE, !.geo = Reverse(a.geo)] IN
    FlattenSeq([k \in 1 .. Len(P) - 1 |-> IF d = "c" THEN << >> ELSE IF d = "f" THEN <<A(k)>> ELSE IF d = "b" THEN <<Rev(A(k))>> ELSE <<A(k), Rev(A(k))>>])
AllArcs(W, R, dir(_)) == LET ids == {W[k].i : k \in DOMAIN W} IN FlattenSeq([k \in DOMAIN W |-> WayArcs(W[k], R, dir(W[k].tags), Rank(ids, W[k].i))])

(* The graph of event e represents the arcs A over the routing nodes R. A matching maps the arcs of e to A. *)
TailOf(e) == TLCEval([a \in 1 .. Len(e.head) |-> CHOOSE x \in 1 .. Len(e.first_out) - 1 : e.first_out[x] < a /\ a <= e.first_out[x + 1]])
Shape(e, R) == /\ e.nc = Cardinality(R) /\ Len(e.first_out) = e.nc + 1 /\ e.first_out[1] = 0 /\ e.first_out[e.nc + 1] = e.ac /\ Len(e.head) = e.ac /\ Len(e.dist) = e.ac
               /\ \A x \in 1 .. e.nc : e.first_out[x] <= e.first_out[x + 1]
               /\ \A a \in 1 .. e.ac : e.head[a] \in 0 .. e.nc - 1
               /\ \A x \in 1 .. e.nc : \A a \in e.first_out[x] + 1 .. e.first_out[x + 1] - 1 : e.head[a] <= e.head[a + 1]
               /\ Len(e.lat) = e.nc /\ Len(e.lon) = e.nc
(* centimetres against whole metres, rounded down *)
DistOK(arc, d) == arc.cm < 0 \/ LET tol == 60 * arc.parts + arc.cm \div 100000 IN 100 * d <= arc.cm + tol /\ arc.cm - tol < 100 * (d + 1)
(* Is there a one-to-one mapping of the n arcs of e to the m arcs of A that respects the classes and ok, under which the forbidden turns of e are as demanded by F?  *)
(* Arcs that no demanded or admitted turn mentions (outside rel) are interchangeable if sig agrees. *)
Matches(n, cls(_), acls(_), m, ok(_, _), sig(_), e, F) ==
    LET keys == {cls(a) : a \in 1 .. n}
        got == TLCEval([k \in keys |-> {a \in 1 .. n : cls(a) = k}])
        want == TLCEval([k \in keys |-> {b \in 1 .. m : acls(b) = k}])
        T == F.must \cup F.may
        rel == {t[1] : t \in T} \cup {t[2] : t \in T}
        obs == {e.ff[i] + 1 : i \in DOMAIN e.ff} \cup {e.ft[i] + 1 : i \in DOMAIN e.ft}
        hot == {acls(b) : b \in rel}
        RECURSIVE Some(_, _)
        Some(G, W) == G = {} \/ LET a == CHOOSE a \in G : TRUE IN \E b \in W : ok(a, b) /\ Some(G \ {a}, W \ {b})
        Cand(W) == {b \in W : b \in rel \/ \A c \in W : c < b /\ c \notin rel => sig(c) # sig(b)}
        RECURSIVE All(_, _)
        All(G, W) == IF G = {} THEN {[x \in {} |-> 0]} ELSE LET a == CHOOSE a \in G : TRUE IN UNION {{(a :> b) @@ f : f \in All(G \ {a}, W \ {b})} : b \in {b \in Cand(W) : ok(a, b)}}
        RECURSIVE Search(_, _)
        Search(K, M) == IF K = {} THEN LET g == {<<M[e.ff[i] + 1], M[e.ft[i] + 1]>> : i \in 1 .. Len(e.ff)} IN F.must \subseteq g /\ g \subseteq T
                        ELSE LET k == CHOOSE k \in K : TRUE IN \E f \in All(got[k], want[k]) : Search(K \ {k}, f @@ M) IN
    /\ n = m /\ keys = {acls(b) : b \in 1 .. m}
    /\ \A k \in keys : Cardinality(got[k]) = Cardinality(want[k])
    /\ \A a \in obs : cls(a) \in hot
    /\ \A k \in keys \ hot : Some(got[k], want[k])
    /\ Search(hot, [x \in {} |-> 0])

(* -------------------------------------------------------------------- geometry *)
Near(x, y) == x - y <= 80 /\ y - x <= 80            \* 1e-7 degrees, single precision
NodeAt(N, v) == {i \in DOMAIN N : N[i].i = v}
PosOK(N, v, lat, lon) == \A i \in NodeAt(N, v) : Near(N[i].lat7, lat) /\ Near(N[i].lon7, lon)
CoordsOK(N, R, e) == LET rk == Ranks(R) IN \A v \in R : PosOK(N, v, e.lat[rk[v] + 1], e.lon[rk[v] + 1])
(* modelling nodes of arc a of the event against the sequence g of node ids *)
GeoSeqOK(N, e, a, g) == LET f == e.fmn[a]  t == e.fmn[a + 1] IN
    t - f = Len(g) /\ \A i \in DOMAIN g : PosOK(N, g[i], e.mlat[f + i], e.mlon[f + i])
FirstLast(g) == IF Len(g) <= 1 THEN g ELSE <<g[1], g[Len(g)]>>
GeometryShape(e) == IF e.geom = "none" /\ ~e.turn THEN e.fmn = << >> /\ e.mlat = << >> /\ e.mlon = << >>
                    ELSE IF e.geom = "none" THEN TRUE
                    ELSE Len(e.fmn) = e.ac + 1 /\ e.fmn[1] = 0 /\ e.fmn[e.ac + 1] = Len(e.mlat) /\ Len(e.mlat) = Len(e.mlon) /\ \A a \in 1 .. e.ac : e.fmn[a] <= e.fmn[a + 1]
GeometryOK(N, e, a, arc) == CASE e.geom = "none" -> TRUE [] e.geom = "all" -> GeoSeqOK(N, e, a, arc.geo) [] e.geom = "fl" -> GeoSeqOK(N, e, a, FirstLast(arc.geo))

(* ------------------------------------------------------------- forbidden turns *)
(* Pairs of indices into A that must be forbidden, and pairs that may be forbidden. Positions are grid points (x, y). *)
Abs(x) == IF x < 0 THEN -x ELSE x
Has2(N, v) == NodeAt(N, v) # {}
Pt(N, v) == LET i == CHOOSE i \in NodeAt(N, v) : TRUE IN <<N[i].x, N[i].y>>
LastBefore(a) == IF a.geo = << >> THEN a.u ELSE a.geo[Len(a.geo)]
FirstAfter(a) == IF a.geo = << >> THEN a.v ELSE a.geo[1]
(* does going from arc a to arc b at node v match direction d: "yes", "no" or "open" if it is too close to call *)
Turn(N, a, b, v, d) ==
    LET p == LastBefore(a)  q == FirstAfter(b) IN
    IF ~(Has2(N, p) /\ Has2(N, q) /\ Has2(N, v)) THEN "open"
    ELSE LET P == Pt(N, p)  V == Pt(N, v)  Q == Pt(N, q)
             ax == V[1] - P[1]  ay == V[2] - P[2]  bx == Q[1] - V[1]  by == Q[2] - V[2]
             dot == ax * bx + ay * by  crs == ax * by - ay * bx
             close45 == (Abs(Abs(crs) - Abs(dot))) * 200 <= Abs(crs) + Abs(dot)
             close60 == Abs(crs * crs - 3 * dot * dot) * 100 <= crs * crs + 3 * dot * dot IN
         IF (ax = 0 /\ ay = 0) \/ (bx = 0 /\ by = 0) THEN "open"
         ELSE CASE d = "left_turn" -> (IF close45 THEN "open" ELSE IF crs > Abs(dot) THEN "yes" ELSE "no")
                [] d = "right_turn" -> (IF close45 THEN "open" ELSE IF -crs > Abs(dot) THEN "yes" ELSE "no")
                [] d = "straight_on" -> (IF close60 THEN "open" ELSE IF dot > 0 /\ crs * crs < 3 * dot * dot THEN "yes" ELSE "no")
                [] d = "u_turn" -> (IF close60 THEN "open" ELSE IF dot < 0 /\ crs * crs < 3 * dot * dot THEN "yes" ELSE "no")
Nothing == [must |-> {}, may |-> {}]
Effect(A, N, WIDS, R, r) ==
    LET In(v) == {i \in DOMAIN A : A[i].v = v}
        Out(v) == {i \in DOMAIN A : A[i].u = v}
        Of(w) == {i \in DOMAIN A : A[i].way = w}
        heads == {A[i].v : i \in Of(r.from)}  tails == {A[i].u : i \in Of(r.to)}
        At(v) == LET FC == In(v) \cap Of(r.from)  TC == Out(v) \cap Of(r.to)
                     All(f, t) == IF r.cat = "no" THEN {<<f, t>>} ELSE {<<f, o>> : o \in Out(v) \ {t}}
                     yes == {c \in FC \X TC : Turn(N, A[c[1]], A[c[2]], v, r.dir) = "yes"}
                     open == {c \in FC \X TC : Turn(N, A[c[1]], A[c[2]], v, r.dir) = "open"} IN
                 IF FC = {} \/ TC = {} THEN Nothing
                 ELSE IF Cardinality(FC) = 1 /\ Cardinality(TC) = 1 THEN [must |-> UNION {All(f, t) : f \in FC, t \in TC}, may |-> {}]
                 ELSE IF open # {} THEN [must |-> {}, may |-> FC \X Out(v)]
                 ELSE IF Cardinality(yes) = 1 THEN [must |-> UNION {All(c[1], c[2]) : c \in yes}, may |-> {}]
                 ELSE Nothing IN
    IF r.from \notin WIDS \/ r.to \notin WIDS THEN Nothing
    ELSE IF r.via # -1 THEN (IF r.via \in R THEN At(r.via) ELSE Nothing)
    ELSE IF r.from = r.to /\ r.cat = "only"
         (* going straight on along the whole way: specified where the way passes in one direction only *)
         THEN LET V == heads \cap tails
                  I(v) == In(v) \cap Of(r.from)  O(v) == Out(v) \cap Of(r.from) IN
              [must |-> UNION {IF Cardinality(I(v)) = 1 /\ Cardinality(O(v)) = 1 THEN I(v) \X (Out(v) \ O(v)) ELSE {} : v \in V},
               may |-> UNION {IF Cardinality(I(v)) = 1 /\ Cardinality(O(v)) = 1 THEN {} ELSE I(v) \X Out(v) : v \in V}]
    ELSE IF Cardinality(heads \cap tails) = 1 THEN At(CHOOSE v \in heads \cap tails : TRUE)
    ELSE Nothing
AllRestrictions(B) == UNION {Restrictions(x.tags, x.ms) : x \in ToSet(Kind(Items(B), {"r"}))}
TurnsSorted(e) == /\ Len(e.ff) = Len(e.ft)
                  /\ \A i \in 1 .. Len(e.ff) : e.ff[i] \in 0 .. e.ac - 1 /\ e.ft[i] \in 0 .. e.ac - 1
                  /\ \A i \in 1 .. Len(e.ff) - 1 : e.ff[i] < e.ff[i + 1] \/ (e.ff[i] = e.ff[i + 1] /\ e.ft[i] < e.ft[i + 1])
Effects(A, N, WIDS, R, B) == LET S == {Effect(A, N, WIDS, R, r) : r \in AllRestrictions(B)} IN [must |-> UNION {x.must : x \in S}, may |-> UNION {x.may : x \in S}]

(* --------------------------------------------------------- the general loader *)
TagUsed(T) == Is(T, "use", {"1"})
TagDir(T) == IF Is(T, "dir", {"f", "b", "c"}) THEN Val(T, "dir") ELSE "2"
Extra(B, cb) == IF cb THEN {x.i : x \in {y \in ToSet(Kind(Items(B), {"n"})) : Is(y.tags, "rn", {"1"})}} ELSE {}
MapOK(B, e) == LET W == Ways(B, TagUsed)  X == Extra(B, e.cb) IN
    /\ SortedSet(Modelling(W, X), e.model) /\ SortedSet(Routing(W, X, e.all), e.routing) /\ SortedSet({W[k].i : k \in DOMAIN W}, e.ways)
GraphOK(B, m, e) ==
    LET W == Ways(B, TagUsed)  N == Kind(Items(B), {"n"})
        R == Routing(W, Extra(B, m.cb), m.all)
        Dir(T) == IF e.wcb THEN TagDir(T) ELSE "2"
        A == AllArcs(W, R, Dir)
        tail == TailOf(e)
        ids == {W[k].i : k \in DOMAIN W}
        rk == Ranks(R)
        cls == TLCEval([a \in 1 .. Len(e.head) |-> <<tail[a] - 1, e.head[a], e.way[a], e.anti[a] = 1>>])
        acls == TLCEval([b \in DOMAIN A |-> <<rk[A[b].u], rk[A[b].v], A[b].wid, A[b].anti>>])
        Cls(a) == cls[a]
        ACls(b) == acls[b]
        OK(a, b) == DistOK(A[b], e.dist[a]) /\ GeometryOK(N, e, a, A[b])
        Sig(b) == <<A[b].cm, A[b].parts, A[b].geo>>
        F == IF e.turn THEN Effects(A, N, ids, R, B) ELSE Nothing IN
    /\ Shape(e, R) /\ Len(e.way) = e.ac /\ Len(e.anti) = e.ac /\ CoordsOK(N, R, e) /\ GeometryShape(e) /\ TurnsSorted(e)
    /\ Matches(e.ac, Cls, ACls, Len(A), OK, Sig, e, F)
    (* the callback sees every routing way once, with its number *)
    /\ e.wcb => /\ Len(e.calls) = Len(W) /\ {e.calls[k].w : k \in DOMAIN e.calls} = ids
                /\ \A k \in DOMAIN e.calls : e.calls[k].l = Rank(ids, e.calls[k].w)

(* ---------------------------------------------------------- the simple loaders *)
OnlyOne(S) == CHOOSE x \in S : TRUE
(* floor(floor(18000 d / s) / 5) without large intermediate results *)
(* -2 stands for numbers that do not fit TLC's integers; travel times of 2^32 ms and more are not representable *)
TravelTime(d, s) == IF d \div s > 596522 THEN -2 ELSE (d \div s) * 3600 + ((d % s) * 3600) \div s
SimpleOK(B, e) ==
    LET Used(T) == CASE e.prof = "car" -> UsedByCars(T) [] e.prof = "bike" -> UsedByBicycles(T) [] OTHER -> UsedByPedestrians(T)
        Dir(T) == CASE e.prof = "car" -> OnlyOne(CarDirs(T)) [] e.prof = "bike" -> BicycleDir(T) [] OTHER -> "2"
        Attr(arc, d) == CASE e.prof = "car" -> TravelTime(d, Speed(arc.tags)) [] e.prof = "bike" -> Comfort(arc.tags) [] OTHER -> 0
        W == Ways(B, Used)  N == Kind(Items(B), {"n"})
        R == Routing(W, {}, e.all)
        A == AllArcs(W, R, Dir)
        tail == TailOf(e)
        ids == {W[k].i : k \in DOMAIN W}
        rk == Ranks(R)
        cls == TLCEval([a \in 1 .. Len(e.head) |-> <<tail[a] - 1, e.head[a]>>])
        acls == TLCEval([b \in DOMAIN A |-> <<rk[A[b].u], rk[A[b].v]>>])
        Cls(a) == cls[a]
        ACls(b) == acls[b]
        OK(a, b) == DistOK(A[b], e.dist[a]) /\ (e.attr[a] = Attr(A[b], e.dist[a]) \/ (e.prof = "car" /\ e.dist[a] \div Speed(A[b].tags) > 1193040))
        Sig(b) == <<A[b].cm, A[b].parts, A[b].tags>>
        F == IF e.prof = "car" THEN Effects(A, N, ids, R, B) ELSE Nothing IN
    /\ Shape(e, R) /\ Len(e.attr) = e.ac /\ CoordsOK(N, R, e) /\ TurnsSorted(e)
    /\ Matches(e.ac, Cls, ACls, Len(A), OK, Sig, e, F)
=============================================================================
