----------------------------- MODULE HeapModel ------------------------------
(* The k-ary heap with position index behind MinIDQueue, checked against the   *)
(* abstract queue (a map from ids to keys) for every history of operations.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, Arity
VARIABLES heap,  \* sequence of <<id, key>>; heap[1] is the root
          pos,   \* id -> position in heap or -1
          m,     \* the abstract queue: id -> key or -1
          ok     \* did every result so far agree with the abstract queue
vars == <<heap, pos, m, ok>>
Ids == 0 .. N - 1
Keys == 0 .. K - 1

Swap(h, p, i, j) == LET h2 == [h EXCEPT ![i] = h[j], ![j] = h[i]] IN
    <<h2, [p EXCEPT ![h2[i][1]] = i, ![h2[j][1]] = j]>>
Parent(i) == ((i - 2) \div Arity) + 1
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(h, p, i) == IF i = 1 THEN <<h, p>>
    ELSE IF h[Parent(i)][2] > h[i][2] THEN LET s == Swap(h, p, i, Parent(i)) IN Up(s[1], s[2], Parent(i)) ELSE Up(h, p, Parent(i))
Down(h, p, i) == LET first == Arity * (i - 1) + 2  last == IF first + Arity - 1 < Len(h) THEN first + Arity - 1 ELSE Len(h) IN
    IF first > Len(h) THEN <<h, p>>
    ELSE LET c == CHOOSE c \in first .. last : \A d \in first .. last : h[c][2] < h[d][2] \/ (h[c][2] = h[d][2] /\ c <= d) IN
         IF h[c][2] >= h[i][2] THEN <<h, p>> ELSE LET s == Swap(h, p, i, c) IN Down(s[1], s[2], c)

Init == heap = << >> /\ pos = [i \in Ids |-> -1] /\ m = [i \in Ids |-> -1] /\ ok = TRUE
Set(r) == heap' = r[1] /\ pos' = r[2]
Push(id, k) == pos[id] = -1 /\ m' = [m EXCEPT ![id] = k] /\ ok' = ok
    /\ Set(Up(Append(heap, <<id, k>>), [pos EXCEPT ![id] = Len(heap) + 1], Len(heap) + 1))
Pop == heap # << >> /\
    LET n == Len(heap)  top == heap[1]  moved == [heap EXCEPT ![1] = heap[n]]  h == SubSeq(moved, 1, n - 1)
        p == [[pos EXCEPT ![heap[n][1]] = 1] EXCEPT ![top[1]] = -1] IN
    /\ Set(IF h = << >> THEN <<h, p>> ELSE Down(h, p, 1))
    /\ ok' = (ok /\ m[top[1]] = top[2] /\ \A i \in Ids : m[i] # -1 => m[i] >= top[2])
    /\ m' = [m EXCEPT ![top[1]] = -1]
Decrease(id, k) == pos[id] # -1 /\
    IF heap[pos[id]][2] > k THEN Set(Up([heap EXCEPT ![pos[id]] = <<id, k>>], pos, pos[id])) /\ ok' = (ok /\ k < m[id]) /\ m' = [m EXCEPT ![id] = k]
    ELSE ok' = (ok /\ k >= m[id]) /\ UNCHANGED <<heap, pos, m>>
Increase(id, k) == pos[id] # -1 /\
    IF heap[pos[id]][2] < k THEN Set(Down([heap EXCEPT ![pos[id]] = <<id, k>>], pos, pos[id])) /\ ok' = (ok /\ k > m[id]) /\ m' = [m EXCEPT ![id] = k]
    ELSE ok' = (ok /\ k <= m[id]) /\ UNCHANGED <<heap, pos, m>>
Clear == heap # << >> /\ heap' = << >> /\ pos' = [i \in Ids |-> IF pos[i] # -1 THEN -1 ELSE pos[i]] /\ m' = [i \in Ids |-> -1] /\ ok' = ok
Next == Pop \/ Clear \/ \E id \in Ids, k \in Keys : Push(id, k) \/ Decrease(id, k) \/ Increase(id, k)
Spec == Init /\ [][Next]_vars

Refines == /\ ok
           /\ \A i \in Ids : IF m[i] = -1 THEN pos[i] = -1 ELSE pos[i] \in 1 .. Len(heap) /\ heap[pos[i]] = <<i, m[i]>>
           /\ Len(heap) = Cardinality({i \in Ids : m[i] # -1})
           /\ \A i \in 2 .. Len(heap) : heap[Parent(i)][2] <= heap[i][2]
=============================================================================
