------------------------------- MODULE Graph -------------------------------
(* Directed multigraphs with nodes 0..n-1 and arcs 0..m-1, as RoutingKit sees   *)
(* them: arc a leads from tail[a+1] to head[a+1] and weighs w[a+1] (sequences    *)
(* come from JSON and are therefore 1-based).  Weights and distances live in     *)
(* 0..Inf; Inf is RoutingKit's inf_weight and means "no way".  TLC's integers    *)
(* are 32 bit wide, hence the saturating addition that never overflows.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Inf == 2147483647
NoId == -1

SAdd(a, b) == IF a >= Inf - b THEN Inf ELSE a + b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOr(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y

Nodes(n) == 0 .. n - 1

IsGraph(n, tail, head) ==
    /\ Len(tail) = Len(head)
    /\ \A a \in DOMAIN tail : tail[a] \in Nodes(n) /\ head[a] \in Nodes(n)

IsWeight(w) == \A a \in DOMAIN w : w[a] \in 0 .. Inf

(* ---- all pairs shortest distances (Floyd-Warshall) ---- *)
Direct(n, tail, head, w) ==
    FoldLeft(LAMBDA D, a : IF w[a] < D[tail[a]][head[a]] THEN [D EXCEPT ![tail[a]][head[a]] = w[a]] ELSE D,
             [i \in Nodes(n) |-> [j \in Nodes(n) |-> IF i = j THEN 0 ELSE Inf]],
             [a \in 1 .. Len(tail) |-> a])

APSP(n, tail, head, w) ==
    FoldLeft(LAMBDA D, k1 : LET k == k1 - 1 IN
                 [i \in Nodes(n) |-> IF D[i][k] = Inf THEN D[i] ELSE
                     [j \in Nodes(n) |-> IF D[k][j] = Inf THEN D[i][j] ELSE Min2(D[i][j], SAdd(D[i][k], D[k][j]))]],
             Direct(n, tail, head, w),
             [k \in 1 .. n |-> k])

(* ---- seeds: a function from nodes to offsets.  Distance from the nearest seed / to the nearest seed ---- *)
FromSeeds(n, D, S) == [v \in Nodes(n) |-> MinOr({SAdd(S[s], D[s][v]) : s \in DOMAIN S}, Inf)]
ToSeeds(n, D, S)   == [v \in Nodes(n) |-> MinOr({SAdd(D[v][t], S[t]) : t \in DOMAIN S}, Inf)]

(* ---- certificates for graphs that are too big for Floyd-Warshall ----                                     *)
(* pot are the claimed distances, pred the arcs of a shortest path forest, ord a numbering along which the    *)
(* forest grows.  CertOK implies pot[v+1] = distance of v from the seeds S.                                   *)
CertOK(n, tail, head, w, S, pot, pred, ord) ==
    /\ Len(pot) = n /\ Len(pred) = n /\ Len(ord) = n
    /\ \A v \in 1 .. n : pot[v] \in 0 .. Inf
    /\ \A s \in DOMAIN S : pot[s + 1] <= S[s]
    /\ \A a \in DOMAIN tail : pot[head[a] + 1] <= SAdd(pot[tail[a] + 1], w[a])
    /\ \A v \in 1 .. n :
         \/ pot[v] = Inf
         \/ pred[v] = NoId /\ v - 1 \in DOMAIN S /\ pot[v] = S[v - 1]
         \/ /\ pred[v] + 1 \in DOMAIN tail
            /\ head[pred[v] + 1] = v - 1
            /\ ord[tail[pred[v] + 1] + 1] < ord[v]
            /\ pot[v] = SAdd(pot[tail[pred[v] + 1] + 1], w[pred[v] + 1])

(* ---- paths ---- *)
(* arcs is a sequence of arc ids that form a walk from s to t *)
IsWalk(tail, head, s, t, arcs) ==
    /\ \A i \in DOMAIN arcs : arcs[i] + 1 \in DOMAIN tail
    /\ arcs = << >> => s = t
    /\ arcs # << >> => tail[arcs[1] + 1] = s /\ head[arcs[Len(arcs)] + 1] = t
    /\ \A i \in 1 .. Len(arcs) - 1 : head[arcs[i] + 1] = tail[arcs[i + 1] + 1]

WalkLength(w, arcs) == FoldLeft(LAMBDA acc, a : SAdd(acc, w[a + 1]), 0, arcs)

NodesOfWalk(head, s, arcs) == <<s>> \o [i \in 1 .. Len(arcs) |-> head[arcs[i] + 1]]
=============================================================================
