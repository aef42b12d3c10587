------------------------------ MODULE CCHModel -------------------------------
(* Design of customizable contraction hierarchies.  Node numbers are ranks       *)
(* (every labelled graph occurs, so every order does).  The topology is the      *)
(* chordal completion E of the graph without weights; customization relaxes all  *)
(* lower triangles; partial customization re-evaluates an ordered queue of arcs. *)
(* M[i][j] is the weight of the arc i->j of the completion (both directions).    *)
EXTENDS Graph
CONSTANTS N, Weights, Changes
VARIABLES A, W, M, dirty, changes
vars == <<A, W, M, dirty, changes>>
V == Nodes(N)
Pair(i, j) == {i, j}
AllPairs == {p \in SUBSET V : Cardinality(p) = 2}
Lo(p) == CHOOSE x \in p : \A y \in p : x <= y
Hi(p) == CHOOSE x \in p : \A y \in p : x >= y

Fill(F) == FoldLeft(LAMBDA X, v : X \cup ({Pair(y, z) : y, z \in {u \in V : u > v /\ Pair(v, u) \in X}} \cap AllPairs), F, [k \in 1 .. N |-> k - 1])

(* arcs of the completion, in the order of their ids: by tail, then by head *)
Arcs(F) == SetToSortSeq(F, LAMBDA p, q : Lo(p) < Lo(q) \/ (Lo(p) = Lo(q) /\ Hi(p) < Hi(q)))
Lower(F, p) == {x \in V : x < Lo(p) /\ Pair(x, Lo(p)) \in F /\ Pair(x, Hi(p)) \in F}
Val(m, w, F, i, j) == MinOr({w[i][j]} \cup {SAdd(m[i][x], m[x][j]) : x \in Lower(F, Pair(i, j))}, Inf)
Respect(F, w) == [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE IF Pair(i, j) \in F THEN w[i][j] ELSE Inf]]
Customize(F, w) == FoldLeft(LAMBDA m, p : [m EXCEPT ![Lo(p)][Hi(p)] = Val(m, w, F, Lo(p), Hi(p)), ![Hi(p)][Lo(p)] = Val(m, w, F, Hi(p), Lo(p))],
                            Respect(F, w), Arcs(F))

E == Fill(A)
Init == /\ \E f \in [{p \in V \X V : p[1] # p[2]} -> Weights] : W = [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE f[<<i, j>>]]]
        /\ A \in {X \in SUBSET AllPairs : \A p \in AllPairs \ X : W[Lo(p)][Hi(p)] = Inf /\ W[Hi(p)][Lo(p)] = Inf}
        /\ M = Customize(Fill(A), W)
        /\ dirty = {} /\ changes = 0

(* change one weight and announce the arc *)
Change(i, j, x) == /\ changes < Changes /\ Pair(i, j) \in A /\ x # W[i][j]
                   /\ (dirty = {} \/ changes > 0)
                   /\ W' = [W EXCEPT ![i][j] = x] /\ dirty' = dirty \cup {Pair(i, j)} /\ changes' = changes + 1 /\ UNCHANGED <<A, M>>

(* process the smallest arc of the queue *)
Process ==
    /\ dirty # {}
    /\ LET seq == Arcs(dirty)  p == seq[1]  i == Lo(p)  j == Hi(p)
           of == M[i][j]  ob == M[j][i]
           nf == Val(M, W, E, i, j)  nb == Val(M, W, E, j, i)
           M2 == [M EXCEPT ![i][j] = nf, ![j][i] = nb]
           (* triangles in which p is a lower arc: {i,j,k} with i the lowest node (top arc jk) or with k below j and above i *)
           tops == {Pair(j, k) : k \in {x \in V : x > i /\ x # j /\ Pair(i, x) \in E /\ Pair(j, x) \in E}}
           Affected(t) == LET k == CHOOSE x \in t : x # j IN
               (* j -> i -> k and k -> i -> j *)
               \/ SAdd(ob, M[i][k]) = M[j][k] \/ SAdd(M[k][i], of) = M[k][j]
               \/ SAdd(nb, M[i][k]) < M[j][k] \/ SAdd(M[k][i], nf) < M[k][j]
           push == IF of = nf /\ ob = nb THEN {} ELSE {t \in tops : Affected(t)}
       IN /\ M' = M2 /\ dirty' = (dirty \ {p}) \cup push
          /\ UNCHANGED <<A, W, changes>>
DoChange == \E i, j \in V, x \in Weights : i # j /\ Change(i, j, x)
Next == DoChange \/ Process
Spec == Init /\ [][Next]_vars

Closure(S, m) == FoldLeft(LAMBDA D, k : [i \in V |-> [j \in V |-> Min2(D[i][j], SAdd(D[i][k], D[k][j]))]], m, [k \in 1 .. N |-> k - 1])
UpM(m) == [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE IF i < j /\ Pair(i, j) \in E THEN m[i][j] ELSE Inf]]
DownM(m) == [i \in V |-> [j \in V |-> IF i = j THEN 0 ELSE IF i > j /\ Pair(i, j) \in E THEN m[i][j] ELSE Inf]]
Exact(m, w) == LET D == Closure(V, w)  U == Closure(V, UpM(m))  B == Closure(V, DownM(m)) IN
    \A s, t \in V : MinOr({SAdd(U[s][x], B[x][t]) : x \in V}, Inf) = D[s][t]

(* perfect customization: the values become distances; arcs that are longer than a detour can be dropped *)
Perfect(m) == FoldLeft(LAMBDA q, k : LET p == Arcs(E)[Len(Arcs(E)) + 1 - k]  i == Lo(p)  j == Hi(p)
                        ups == {x \in V : x > i /\ x # j /\ Pair(i, x) \in E /\ Pair(j, x) \in E} IN
                        [q EXCEPT ![i][j] = MinOr({@} \cup {SAdd(q[i][x], q[x][j]) : x \in ups}, Inf),
                                  ![j][i] = MinOr({@} \cup {SAdd(q[j][x], q[x][i]) : x \in ups}, Inf)],
                       m, [k \in 1 .. Cardinality(E) |-> k])

QueryExact == dirty = {} => Exact(M, W)
PartialIsFull == dirty = {} => M = Customize(E, W)
PerfectIsDistance == dirty = {} => LET P == Perfect(M)  D == Closure(V, W) IN \A i, j \in V : (i # j /\ Pair(i, j) \in E) => P[i][j] = D[i][j]
(* keep only the arcs whose customized weight already is a distance *)
PerfectExact == dirty = {} => LET P == Perfect(M) IN Exact([i \in V |-> [j \in V |-> IF M[i][j] > P[i][j] THEN Inf ELSE P[i][j]]], W)
=============================================================================
