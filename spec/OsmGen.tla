-------------------------------- MODULE OsmGen --------------------------------
(* Small road networks for replay: ways over five nodes, arbitrary directions.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
VARIABLES net, k
R(S) == RandomElement(IF k >= 0 THEN S ELSE {})
Init == net = [ways |-> << >>, rn |-> {}, cb |-> 0, all |-> 0, geom |-> "all"] /\ k = 0
Way == [ns : UNION {[1 .. n -> 1 .. 5] : n \in 1 .. 4}, use : {TRUE}, dir : {"2", "f", "b", "c"}]
Next == /\ k < 5 /\ k' = k + 1
        /\ CASE k < 3 -> \E n \in {R(0 .. 4)}, u \in {R(1 .. 8)}, d \in {R({"2", "f", "b", "c", "x"})} : \E s \in {R([1 .. n -> 1 .. 5])} :
                           net' = [net EXCEPT !.ways = Append(@, [ns |-> s, use |-> u # 1, dir |-> IF d = "x" THEN "2" ELSE d])]
             [] k = 3 -> \E x \in {R(SUBSET (1 .. 5))}, c \in {R(0 .. 1)}, a \in {R({0, 0, 1})}, g \in {R({"none", "all", "fl"})} :
                           net' = [net EXCEPT !.rn = IF a = 0 THEN x ELSE {}, !.cb = c, !.all = a, !.geom = g]
             [] OTHER -> UNCHANGED net
        /\ IF k = 4 THEN PrintT(<<"HIST", ToJson(net)>>) ELSE TRUE
Spec == Init /\ [][Next]_<<net, k>>
=============================================================================
