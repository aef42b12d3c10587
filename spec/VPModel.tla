------------------------------- MODULE VPModel -------------------------------
(* Design model of the vantage point tree behind GeoPositionToNode.            *)
(* Points live in a finite metric space (a cycle of K positions).  The tree is *)
(* an arrangement of the points: a range [b,e) with more than Leaf points has  *)
(* its pivot at b and is split at mid such that no point before mid is farther *)
(* from the pivot than the point at mid, and no point after it is closer.      *)
(* Every legal arrangement is explored: it is whatever nth_element produces.   *)
(* The nearest neighbour search descends into the half the query lies in and   *)
(* skips the other half if the triangle inequality allows it.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS K, N, Leaf, Slop       \* Slop > 0: skip halves too eagerly (a deliberately broken search)

D(x, y) == LET a == IF x < y THEN y - x ELSE x - y IN IF 2 * a > K THEN K - a ELSE a
RECURSIVE Legal(_, _, _)
Legal(p, b, e) == IF e - b <= Leaf THEN TRUE
    ELSE LET m == b + (e - b) \div 2 IN
         /\ \A i \in b .. m - 1 : D(p[b], p[i]) <= D(p[b], p[m])
         /\ \A i \in m .. e - 1 : D(p[b], p[i]) >= D(p[b], p[m])
         /\ Legal(p, b, m) /\ Legal(p, m, e)

VARIABLES pts, q, rad, best, found, stack, all, allstack
vars == <<pts, q, rad, best, found, stack, all, allstack>>
(* a stack entry is a range, to be skipped if its lower bound low is not below the best distance found so far *)
Init == /\ pts \in {p \in [1 .. N -> 0 .. K - 1] : Legal(p, 1, N + 1) = TRUE}
        /\ q \in 0 .. K - 1 /\ rad \in 0 .. K \div 2
        /\ best = rad /\ found = 0 /\ stack = <<[b |-> 1, e |-> N + 1, low |-> 0, always |-> TRUE]>>
        /\ all = {} /\ allstack = <<[b |-> 1, e |-> N + 1]>>
RECURSIVE Scan(_, _, _, _)
Scan(i, e, bd, f) == IF i = e THEN <<bd, f>> ELSE IF D(q, pts[i]) <= bd THEN Scan(i + 1, e, D(q, pts[i]), i) ELSE Scan(i + 1, e, bd, f)
Search == /\ stack # << >>
          /\ LET t == Head(stack)  rest == Tail(stack)  m == t.b + (t.e - t.b) \div 2  dq == D(pts[t.b], q)  dm == D(pts[t.b], pts[m]) IN
             IF ~t.always /\ t.low + Slop >= best THEN stack' = rest /\ UNCHANGED <<best, found>>
             ELSE IF t.e - t.b <= Leaf THEN LET s == Scan(t.b, t.e, best, found) IN best' = s[1] /\ found' = s[2] /\ stack' = rest
             ELSE LET inner(low, a) == [b |-> t.b, e |-> m, low |-> low, always |-> a]  outer(low, a) == [b |-> m, e |-> t.e, low |-> low, always |-> a] IN
                  /\ stack' = (IF dq >= dm THEN <<outer(0, TRUE), inner(dq - dm, FALSE)>> ELSE <<inner(0, TRUE), outer(dm - dq, FALSE)>>) \o rest
                  /\ UNCHANGED <<best, found>>
          /\ UNCHANGED <<pts, q, rad, all, allstack>>
SearchAll == /\ stack = << >> /\ allstack # << >>
             /\ LET t == Head(allstack)  rest == Tail(allstack)  m == t.b + (t.e - t.b) \div 2  dq == D(pts[t.b], q)  dm == D(pts[t.b], pts[m]) IN
                IF t.e - t.b <= Leaf THEN all' = all \cup {i \in t.b .. t.e - 1 : D(q, pts[i]) <= rad} /\ allstack' = rest
                ELSE /\ allstack' = (IF dq <= rad + dm THEN <<[b |-> t.b, e |-> m]>> ELSE << >>) \o (IF dm <= rad + dq THEN <<[b |-> m, e |-> t.e]>> ELSE << >>) \o rest
                     /\ UNCHANGED all
             /\ UNCHANGED <<pts, q, rad, best, found, stack>>
Next == Search \/ SearchAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == stack = << >> /\ allstack = << >>
Inside == {i \in 1 .. N : D(q, pts[i]) <= rad}
(* Points exactly as far away as the bound may be skipped: a point on the very boundary of the radius need not be
   found, which is the tolerance of the property.  Anything strictly closer is found. *)
Nearest == Done => /\ (found = 0 => \A i \in 1 .. N : D(q, pts[i]) >= rad)
                   /\ (found # 0 => D(q, pts[found]) = best /\ best <= rad /\ \A i \in 1 .. N : D(q, pts[i]) >= best)
AllFound == Done => all = Inside
Terminates == <>Done
=============================================================================
