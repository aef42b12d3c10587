--------------------------- MODULE SetQueueModel ----------------------------
(* The implicit binary tree behind IDSetMinQueue with its cached minimum,      *)
(* checked against a set of ids for every history of operations.               *)
EXTENDS Naturals, Integers, FiniteSets, TLC
CONSTANT MaxN
VARIABLES n, data, min, set, ok
vars == <<n, data, min, set, ok>>
RECURSIVE Pow2(_, _)
Pow2(y, x) == IF y < x THEN Pow2(2 * y, x) ELSE y
Offset == Pow2(1, n)
Size == n + Offset + (n % 2)
Sibling(x) == IF x % 2 = 1 THEN x - 1 ELSE x + 1
Min(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y

Init == n \in 0 .. MaxN /\ data = [x \in 0 .. Size - 1 |-> FALSE] /\ min = -1 /\ set = {} /\ ok = TRUE
RECURSIVE Mark(_, _)
Mark(d, x) == LET d2 == [d EXCEPT ![x] = TRUE] IN IF x = 1 \/ d2[x \div 2] THEN d2 ELSE Mark(d2, x \div 2)
Push(id) == /\ min' = IF min = -1 \/ id < min THEN id ELSE min
            /\ data' = IF data[id + Offset] THEN data ELSE Mark(data, id + Offset)
            /\ set' = set \cup {id} /\ UNCHANGED <<n, ok>>
(* go up until a larger sibling is marked, then down along the smaller marked children *)
RECURSIVE Unmark(_, _), Descend(_, _)
Unmark(d, x) == LET d2 == [d EXCEPT ![x] = FALSE] IN
    IF x = 1 THEN <<d2, 0>> ELSE IF x % 2 = 0 /\ d2[Sibling(x)] THEN <<d2, Sibling(x)>> ELSE Unmark(d2, x \div 2)
Descend(d, x) == IF x >= Offset THEN x ELSE IF d[2 * x] THEN Descend(d, 2 * x) ELSE Descend(d, 2 * x + 1)
Pop == IF min = -1 THEN ok' = (ok /\ set = {}) /\ UNCHANGED <<n, data, min, set>>
       ELSE LET r == Unmark(data, min + Offset) IN
            /\ data' = r[1] /\ min' = IF r[2] = 0 THEN -1 ELSE Descend(r[1], r[2]) - Offset
            /\ ok' = (ok /\ min = Min(set)) /\ set' = set \ {min} /\ n' = n
Next == Pop \/ \E id \in 0 .. n - 1 : Push(id)
Spec == Init /\ [][Next]_vars
Refines == /\ ok /\ min = Min(set) /\ \A id \in 0 .. n - 1 : data[id + Offset] = (id \in set)
           /\ \A x \in 1 .. Offset - 1 : (2 * x < Size) => (data[x] = (data[2 * x] \/ (2 * x + 1 < Size /\ data[2 * x + 1])))
=============================================================================
