------------------------------- MODULE OsmTrace -------------------------------
(* Recorded histories of the OSM functions. *)
EXTENDS Osm, Json, IOUtils
VARIABLES l, files, map
vars == <<l, files, map>>
T == ndJsonDeserialize(IOEnv.TRACE)
E == T[l]
Empty == [j \in {} |-> 0]
Same == UNCHANGED <<files, map>>
Has1(f) == f \in DOMAIN files
Missing == <<[kind |-> "bad"]>>        \* a file that does not exist
F(f) == IF Has1(f) THEN files[f] ELSE Missing
Step ==
    CASE E.op = "scenario" -> files' = Empty /\ map' = Empty
      [] E.op = "file" -> files' = [f \in DOMAIN files \cup {E.f} |-> IF f = E.f THEN E.blocks ELSE files[f]] /\ UNCHANGED map
      [] E.op = "read" -> ReadOK(F(E.f), E) = TRUE /\ Same
      [] E.op = "map" -> MapOK(F(E.f), E) = TRUE /\ map' = [cb |-> E.cb, all |-> E.all] /\ UNCHANGED files
      [] E.op = "graph" -> GraphOK(F(E.f), map, E) = TRUE /\ Same
      [] E.op = "simple" -> SimpleOK(F(E.f), E) = TRUE /\ Same
      [] E.op = "load_err" -> (E.ok = ~Scan(F(E.f), IF E.what = "map" THEN {"w"} ELSE IF E.what = "car" THEN {"n", "w", "r"} ELSE {"n", "w"}).fails) /\ Same
      [] E.op = "prof" -> ProfileOK(E) = TRUE /\ Same
      [] E.op = "restr" -> RestrOK(E) = TRUE /\ Same
Init == l = 1 /\ files = Empty /\ map = Empty
Next == l <= Len(T) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
