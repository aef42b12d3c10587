--------------------------- MODULE DijkstraModel ----------------------------
(* Label setting search, with the transition function of Routing.tla itself:      *)
(* whatever frontier node of minimum label is settled, settled labels are exact   *)
(* distances (arrival times for time dependent weights) and never change again.   *)
EXTENDS Routing
CONSTANTS N, Weights, Periods
V == Nodes(N)
AllArcs == SetToSeq({p \in V \X V : p[1] # p[2]})
Tail_ == [i \in 1 .. Len(AllArcs) |-> AllArcs[i][1]]
Head_ == [i \in 1 .. Len(AllArcs) |-> AllArcs[i][2]]
VARIABLES w, per
vars == <<st, w, per>>
Init == /\ w \in [1 .. Len(AllArcs) -> Weights] /\ per \in Periods
        /\ \E S \in SUBSET V \ {{}} : \E f \in [S -> {0, 3}] :
             st = [EmptyStore EXCEPT !.g = (0 :> [n |-> N, tail |-> Tail_, head |-> Head_]),
                                     !.d = (0 :> [g |-> 0, lab |-> f, done |-> {}, S |-> f, w |-> None, per |-> 0])]
Next == \E x \in V : DijSettlePre(0, w, per) /\ DijSettleOK(0, x, IF x \in DOMAIN st.d[0].lab THEN st.d[0].lab[x] ELSE Inf)
                     /\ st' = DijSettlePost(0, w, per, x) /\ UNCHANGED <<w, per>>
Spec == Init /\ [][Next]_vars
(* earliest arrival by iterating N times (Bellman-Ford) *)
Relax(L) == [v \in V |-> MinOr({L[v]} \cup {IF L[Tail_[a]] = Inf THEN Inf ELSE SAdd(L[Tail_[a]], Eff(w, per, a, L[Tail_[a]])) : a \in {b \in DOMAIN Tail_ : Head_[b] = v}}, Inf)]
RECURSIVE Iter(_, _)
Iter(L, k) == IF k = 0 THEN L ELSE Iter(Relax(L), k - 1)
Earliest == Iter([v \in V |-> IF v \in DOMAIN st.d[0].S THEN st.d[0].S[v] ELSE Inf], N)
Exact == LET Ea == Earliest IN \A v \in st.d[0].done : st.d[0].lab[v] = Ea[v]
Complete == DijFrontier(0) = {} => LET Ea == Earliest IN \A v \in V : v \in st.d[0].done <=> Ea[v] < Inf
Stable == [][\A v \in st.d[0].done : st'.d[0].lab[v] = st.d[0].lab[v]]_vars
=============================================================================
