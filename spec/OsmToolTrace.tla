----------------------------- MODULE OsmToolTrace -----------------------------
(* Recorded runs of osm_extract: the car routing graph of a file, written to vectors. *)
EXTENDS Osm, Json, IOUtils
VARIABLES l, files
vars == <<l, files>>
T == ndJsonDeserialize(IOEnv.TRACE)
E == T[l]
Empty == [j \in {} |-> 0]
Missing == <<[kind |-> "bad"]>>
F(f) == IF f \in DOMAIN files THEN files[f] ELSE Missing

(* the tool reads all ways, and then all nodes *)
Readable(B) == ~Scan(B, {"n", "w"}).fails
ExtractOK(B, e) ==
    LET Dir(X) == OnlyOne(CarDirs(X))
        W == Ways(B, UsedByCars)  N == Kind(Items(B), {"n"})
        R == Routing(W, {}, FALSE)
        A == AllArcs(W, R, Dir)
        tail == TailOf(e)
        ids == {W[k].i : k \in DOMAIN W}
        rk == Ranks(R)
        cls == TLCEval([a \in 1 .. Len(e.head) |-> <<tail[a] - 1, e.head[a], IF e.full THEN e.way[a] ELSE 0>>])
        acls == TLCEval([b \in DOMAIN A |-> <<rk[A[b].u], rk[A[b].v], IF e.full THEN A[b].wid ELSE 0>>])
        Cls(a) == cls[a]
        ACls(b) == acls[b]
        OK(a, b) == DistOK(A[b], e.dist[a]) /\ (e.attr[a] = TravelTime(e.dist[a], Speed(A[b].tags)) \/ e.dist[a] \div Speed(A[b].tags) > 1193040)
        Sig(b) == <<A[b].cm, A[b].parts, A[b].tags>> IN
    /\ e.bad = << >> /\ Shape(e, R) /\ Len(e.attr) = e.ac /\ CoordsOK(N, R, e)
    /\ e.full => /\ Len(e.way) = e.ac /\ SortedSet(R, e.nodes) /\ SortedSet(ids, e.ways)
                 /\ Len(e.speed) = Len(W) /\ Len(e.name) = Len(W)
                 /\ \A k \in DOMAIN W : LET r == Rank(ids, W[k].i) + 1 IN e.speed[r] = Speed(W[k].tags) /\ e.name[r] = Name(W[k].tags)
    /\ Matches(e.ac, Cls, ACls, Len(A), OK, Sig, e, Nothing)

Step ==
    CASE E.op = "scenario" -> files' = Empty
      [] E.op = "file" -> files' = [f \in DOMAIN files \cup {E.f} |-> IF f = E.f THEN E.blocks ELSE files[f]]
      [] E.op = "extract" -> /\ (E.err = ~Readable(F(E.f)))
                            /\ (IF E.err THEN E.wrote = << >> ELSE ExtractOK(F(E.f), E) = TRUE)
                            /\ UNCHANGED files
Init == l = 1 /\ files = Empty
Next == l <= Len(T) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
===============================================================================
