---------------------------- MODULE ParCustModel -----------------------------
(* Parallel customization: threads take triangles of one level from a shared      *)
(* work list and lower the top arc with a compare-and-swap loop; a barrier        *)
(* separates the levels.  Explored for all interleavings.  The result must equal  *)
(* the sequential customization.  Atomic = FALSE / Barrier = FALSE are broken     *)
(* designs that the model must refute.                                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS Threads, Atomic, Barrier, Weights
Inf == 100
(* nodes 0 and 1 lie below the clique 2,3,4: levels {0,1} {2} {3} {4} *)
Arc == {<<0,2>>, <<0,3>>, <<0,4>>, <<1,2>>, <<1,3>>, <<1,4>>, <<2,3>>, <<2,4>>, <<3,4>>}
Levels == << << <<0,2,3>>, <<0,2,4>>, <<0,3,4>>, <<1,2,3>>, <<1,2,4>>, <<1,3,4>> >>, << <<2,3,4>> >> >>
Bot(t) == <<t[1], t[2]>>
Mid(t) == <<t[1], t[3]>>
Top(t) == <<t[2], t[3]>>
VARIABLES M, M0, lvl, nxt, pc, tri, val, seen
vars == <<M, M0, lvl, nxt, pc, tri, val, seen>>
Init == /\ \E f \in [{<<0,2>>, <<0,3>>, <<1,2>>, <<1,3>>, <<1,4>>} -> Weights], g \in {5, Inf} :
              M0 = [a \in Arc |-> IF a \in DOMAIN f THEN f[a] ELSE IF a = <<0,4>> THEN Inf ELSE g]
        /\ M = M0
        /\ lvl = 1 /\ nxt = 1
        /\ pc = [t \in Threads |-> "idle"] /\ tri = [t \in Threads |-> <<0,2,3>>] /\ val = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> 0]
Take(t) == /\ pc[t] = "idle" /\ lvl <= Len(Levels) /\ nxt <= Len(Levels[lvl])
           /\ tri' = [tri EXCEPT ![t] = Levels[lvl][nxt]] /\ nxt' = nxt + 1
           /\ pc' = [pc EXCEPT ![t] = "sum"] /\ UNCHANGED <<M, M0, lvl, val, seen>>
Sum(t) == /\ pc[t] = "sum" /\ val' = [val EXCEPT ![t] = M[Bot(tri[t])] + M[Mid(tri[t])]]
          /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<M, M0, lvl, nxt, tri, seen>>
Read(t) == /\ pc[t] = "read" /\ seen' = [seen EXCEPT ![t] = M[Top(tri[t])]]
           /\ pc' = [pc EXCEPT ![t] = IF val[t] < M[Top(tri[t])] THEN "swap" ELSE "idle"] /\ UNCHANGED <<M, M0, lvl, nxt, tri, val>>
Swap(t) == /\ pc[t] = "swap"
           /\ IF Atomic /\ M[Top(tri[t])] # seen[t] THEN pc' = [pc EXCEPT ![t] = "read"] /\ M' = M
              ELSE M' = [M EXCEPT ![Top(tri[t])] = val[t]] /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<M0, lvl, nxt, tri, val, seen>>
Advance == /\ lvl <= Len(Levels) /\ nxt > Len(Levels[lvl]) /\ (Barrier => \A t \in Threads : pc[t] = "idle")
           /\ lvl' = lvl + 1 /\ nxt' = 1 /\ UNCHANGED <<M, M0, pc, tri, val, seen>>
ThreadStep == \E t \in Threads : Take(t) \/ Sum(t) \/ Read(t) \/ Swap(t)
Next == ThreadStep \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == lvl > Len(Levels) /\ \A t \in Threads : pc[t] = "idle"
Sequential(m) == FoldLeft(LAMBDA q, t : [q EXCEPT ![Top(t)] = IF q[Bot(t)] + q[Mid(t)] < @ THEN q[Bot(t)] + q[Mid(t)] ELSE @], m, Levels[1] \o Levels[2])
Final == Done => M = Sequential(M0)
Terminates == <>Done
=============================================================================
