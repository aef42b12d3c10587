------------------------------- MODULE CHModel -------------------------------
(* Design of contraction hierarchies: nodes are contracted one by one in an      *)
(* arbitrary order; a shortcut must be inserted when the rest of the core has    *)
(* no path that is at most as long and may be inserted otherwise (the witness    *)
(* search is allowed to give up at any point).  Invariants: contraction keeps    *)
(* the distances of the core; once all nodes are contracted the shortest         *)
(* up-down path has exactly the length of a shortest path of the input graph.    *)
EXTENDS Graph
CONSTANTS N, Weights
VARIABLES W, core, rem, up, rank
vars == <<W, core, rem, up, rank>>
V == Nodes(N)

Close(S, M) == \* Floyd-Warshall restricted to S
    FoldLeft(LAMBDA D, k : IF k \notin S THEN D ELSE
                 [i \in V |-> [j \in V |-> IF i \in S /\ j \in S THEN Min2(D[i][j], SAdd(D[i][k], D[k][j])) ELSE D[i][j]]],
             [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE M[i][j]]], [k \in 1 .. N |-> k - 1])

Init == /\ \E f \in [{p \in V \X V : p[1] # p[2]} -> Weights] : W = [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE f[<<i, j>>]]]
        /\ core = W /\ rem = V /\ up = [i \in V |-> [j \in V |-> Inf]] /\ rank = [i \in V |-> 0]

Contract(v) ==
    LET R == rem \ {v}
        D == Close(R, core)
        Via(p) == SAdd(core[p[1]][v], core[v][p[2]])
        P == {p \in R \X R : p[1] # p[2] /\ Via(p) < Inf}
        Must == {p \in P : Via(p) < D[p[1]][p[2]]}
    IN \E X \in SUBSET (P \ Must) :
         /\ core' = [i \in V |-> [j \in V |-> IF <<i, j>> \in Must \cup X THEN Min2(core[i][j], Via(<<i, j>>)) ELSE core[i][j]]]
         /\ rem' = R
         (* arcs between v and higher nodes, in both directions *)
         /\ up' = [i \in V |-> [j \in V |-> IF (i = v /\ j \in R) \/ (j = v /\ i \in R) THEN core[i][j] ELSE up[i][j]]]
         /\ rank' = [rank EXCEPT ![v] = N - Cardinality(rem)]
         /\ UNCHANGED W
Next == \E v \in rem : Contract(v)
Spec == Init /\ [][Next]_vars

CoreKeepsDistances == LET D == Close(V, W)  C == Close(rem, core) IN \A i, j \in rem : C[i][j] = D[i][j]
(* distances of paths that only go up, from s / only go down, to t *)
UpOnly(i, j) == IF rank[i] < rank[j] THEN up[i][j] ELSE Inf
DownOnly(i, j) == IF rank[i] > rank[j] THEN up[i][j] ELSE Inf
Fw == Close(V, [i \in V |-> [j \in V |-> UpOnly(i, j)]])
Bw == Close(V, [i \in V |-> [j \in V |-> DownOnly(i, j)]])
QueryExact == rem = {} => LET D == Close(V, W)  F == Fw  B == Bw IN
    \A s, t \in V : MinOr({SAdd(F[s][x], B[x][t]) : x \in V}, Inf) = D[s][t]
=============================================================================
