------------------------------ MODULE SccModel ------------------------------
(* The iterative depth first search of compute_strongly_connected_components: *)
(* an explicit stack, and low links that are updated from the low links (not   *)
(* the positions) of nodes still on the component stack.  All graphs with N    *)
(* nodes, arcs ordered by head.                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT N
Nodes == 0 .. N - 1
VARIABLES adj,     \* node -> sequence of heads
          dfs, scc, nxt, dpos, low, comp, root, cnt, pre, done
vars == <<adj, dfs, scc, nxt, dpos, low, comp, root, cnt, pre, done>>
Init == /\ adj \in [Nodes -> {SetToSortSeq(S, LAMBDA a, b : a < b) : S \in SUBSET Nodes}]
        /\ dfs = << >> /\ scc = << >> /\ nxt = [x \in Nodes |-> 1] /\ dpos = [x \in Nodes |-> -1] /\ low = [x \in Nodes |-> -1]
        /\ comp = [x \in Nodes |-> -1] /\ root = 0 /\ cnt = 0 /\ pre = 0 /\ done = FALSE
OnStack(s, x) == \E i \in DOMAIN s : s[i] = x
RECURSIVE Scan(_, _, _, _, _)
(* advance over the arcs of x whose heads are numbered, updating the low link *)
Scan(x, i, lw, dp, s) == IF i > Len(adj[x]) THEN <<i, lw>> ELSE LET y == adj[x][i] IN
    IF dp[y] = -1 THEN <<i, lw>> ELSE Scan(x, i + 1, IF OnStack(s, y) /\ lw[y] < lw[x] THEN [lw EXCEPT ![x] = lw[y]] ELSE lw, dp, s)
StartRoot == dfs = << >> /\ ~done /\
    IF root = N THEN done' = TRUE /\ UNCHANGED <<adj, dfs, scc, nxt, dpos, low, comp, root, cnt, pre>>
    ELSE root' = root + 1 /\ dfs' = (IF comp[root] = -1 THEN <<root>> ELSE << >>) /\ UNCHANGED <<adj, scc, nxt, dpos, low, comp, cnt, pre, done>>
Visit == dfs # << >> /\
    LET x == dfs[Len(dfs)]  rest == SubSeq(dfs, 1, Len(dfs) - 1)  new == dpos[x] = -1
        dp == IF new THEN [dpos EXCEPT ![x] = pre] ELSE dpos
        l0 == IF new THEN [low EXCEPT ![x] = pre] ELSE low
        s0 == IF new THEN Append(scc, x) ELSE scc
        r == Scan(x, nxt[x], l0, dp, s0) IN
    /\ dpos' = dp /\ pre' = (IF new THEN pre + 1 ELSE pre) /\ nxt' = [nxt EXCEPT ![x] = r[1]] /\ low' = r[2]
    /\ IF r[1] > Len(adj[x]) THEN
          /\ dfs' = rest
          /\ IF dp[x] = r[2][x] THEN
                LET i == CHOOSE i \in DOMAIN s0 : s0[i] = x  top == {s0[j] : j \in i .. Len(s0)} IN
                comp' = [y \in Nodes |-> IF y \in top THEN cnt ELSE comp[y]] /\ cnt' = cnt + 1 /\ scc' = SubSeq(s0, 1, i - 1)
             ELSE comp' = comp /\ cnt' = cnt /\ scc' = s0
       ELSE dfs' = rest \o <<x, adj[x][r[1]]>> /\ scc' = s0 /\ UNCHANGED <<comp, cnt>>
    /\ UNCHANGED <<adj, root, done>>
Next == StartRoot \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {ToSet(adj[x]) : x \in S} IN IF T = S THEN S ELSE Reach(T)
StackFits == Len(dfs) <= N          \* the explicit stack has room for N entries
Correct == done => /\ scc = << >>
                   /\ \A x, y \in Nodes : (comp[x] = comp[y]) = (y \in Reach({x}) /\ x \in Reach({y}))
                   /\ {comp[x] : x \in Nodes} = 0 .. cnt - 1
Terminates == <>done
=============================================================================
