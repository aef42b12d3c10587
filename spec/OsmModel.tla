------------------------------- MODULE OsmModel -------------------------------
(* Classifying nodes in one scan over a file in any order: a node becomes a      *)
(* modelling node when it is seen on a routing way for the first time, and a     *)
(* routing node when it is seen again, or at an end of a way.                    *)
EXTENDS Osm
CONSTANTS MaxWays, MaxNode, MaxLen, MarkEnds
VARIABLES ways, extra, all, model, routing, cur, pos
vars == <<ways, extra, all, model, routing, cur, pos>>
Nodes == 1 .. MaxNode
Seqs == UNION {[1 .. k -> Nodes] : k \in 1 .. MaxLen}
Init == ways = << >> /\ extra = {} /\ all \in BOOLEAN /\ model = {} /\ routing = {} /\ cur = << >> /\ pos = 0
Idle == cur = << >>
(* a node the user asks for *)
Node == Idle /\ \E v \in Nodes \ extra : extra' = extra \cup {v} /\ model' = model \cup {v} /\ routing' = routing \cup {v} /\ UNCHANGED <<ways, all, cur, pos>>
Start == Idle /\ Len(ways) < MaxWays /\ \E s \in Seqs : IF Len(s) < 2 THEN FALSE ELSE cur' = s /\ pos' = 1 /\ UNCHANGED <<ways, extra, all, model, routing>>
Step == /\ cur # << >> /\ pos <= Len(cur)
        /\ LET v == cur[pos] IN
           /\ model' = model \cup {v}
           /\ routing' = IF all \/ v \in model THEN routing \cup {v} ELSE routing
        /\ pos' = pos + 1 /\ UNCHANGED <<ways, extra, all, cur>>
Finish == /\ cur # << >> /\ pos > Len(cur)
          /\ routing' = (IF MarkEnds THEN routing \cup {cur[1], cur[Len(cur)]} ELSE routing)
          /\ ways' = Append(ways, [ns |-> cur]) /\ cur' = << >> /\ pos' = 0 /\ UNCHANGED <<extra, all, model>>
Next == Node \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Classified == Idle => model = Modelling(ways, extra) /\ routing = Routing(ways, extra, all)
Subset == routing \subseteq model
=============================================================================
