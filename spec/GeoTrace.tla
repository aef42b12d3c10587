------------------------------- MODULE GeoTrace -------------------------------
(* Recorded histories of geo_dist and GeoPositionToNode. *)
EXTENDS Geo, Json, IOUtils
VARIABLES l, ix                \* ix: index object -> number of its points
T == ndJsonDeserialize(IOEnv.TRACE)
E == T[l]
Set(i, n) == ix' = [j \in DOMAIN ix \cup {i} |-> IF j = i THEN n ELSE ix[j]]
Step ==
    CASE E.op = "scenario" -> ix' = [j \in {} |-> 0]
      [] E.op = "dist" -> DistOK(E) = TRUE /\ UNCHANGED ix
      [] E.op = "g_new" -> E.count = E.n /\ Set(E.i, E.n)
      [] E.op = "g_default" -> E.count = 0 /\ Set(E.i, 0)
      [] E.op = "g_copy" -> Set(E.i, ix[E.j])
      [] E.op = "g_drop" -> ix' = [j \in DOMAIN ix \ {E.i} |-> ix[j]]
      [] E.op = "g_near" -> (Len(E.ref) = ix[E.i] /\ NearestOK(E)) = TRUE /\ UNCHANGED ix
      [] E.op = "g_all" -> (Len(E.ref) = ix[E.i] /\ AllOK(E)) = TRUE /\ UNCHANGED ix
Init == l = 1 /\ ix = [j \in {} |-> 0]
Next == l <= Len(T) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, ix>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
