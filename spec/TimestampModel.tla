--------------------------- MODULE TimestampModel ---------------------------
(* Flags that are cleared in constant time by advancing a clock with K values.    *)
(* real is what a user expects: the ids set since the last reset.                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids, K, ClearOnWrap
VARIABLES last, now, real
vars == <<last, now, real>>
Init == last = [i \in Ids |-> 0] /\ now = 1 /\ real = {}
Set(i) == last' = [last EXCEPT ![i] = now] /\ real' = real \cup {i} /\ now' = now
ResetOne(i) == last' = [last EXCEPT ![i] = (now + K - 1) % K] /\ real' = real \ {i} /\ now' = now
ResetAll == LET n == (now + 1) % K IN
            /\ real' = {}
            /\ IF n = 0 /\ ClearOnWrap THEN now' = 1 /\ last' = [i \in Ids |-> 0]
               ELSE now' = n /\ last' = last
Next == ResetAll \/ \E i \in Ids : Set(i) \/ ResetOne(i)
Spec == Init /\ [][Next]_vars
Faithful == \A i \in Ids : (last[i] = now) <=> (i \in real)
=============================================================================
