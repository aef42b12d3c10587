------------------------------- MODULE GenTiny -------------------------------
(* Enumerates all graphs on N nodes with at most one arc per ordered pair of     *)
(* distinct nodes, weights 1..WMAX (an index), and all node orders.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
N == atoi(IOEnv.N)
WMAX == atoi(IOEnv.WMAX)
Pairs == SetToSeq({<<i, j>> : i, j \in 0 .. N - 1} \ {<<i, i>> : i \in 0 .. N - 1})
Orders == {o \in [1 .. N -> 0 .. N - 1] : \A i, j \in 1 .. N : i # j => o[i] # o[j]}
VARIABLES w, o, done
Init == w \in [1 .. Len(Pairs) -> 0 .. WMAX] /\ o \in Orders /\ done = FALSE
(* w = 0: the arc is missing *)
Out == LET idx == SelectSeq([i \in 1 .. Len(Pairs) |-> i], LAMBDA i : w[i] > 0) IN
       <<[i \in 1 .. Len(idx) |-> Pairs[idx[i]][1]], [i \in 1 .. Len(idx) |-> Pairs[idx[i]][2]], [i \in 1 .. Len(idx) |-> w[idx[i]] - 1], o>>
Next == ~done /\ PrintT(<<"HIST", ToJson(Out)>>) /\ done' = TRUE /\ UNCHANGED <<w, o>>
Spec == Init /\ [][Next]_<<w, o, done>>
=============================================================================
