--------------------------------- MODULE Geo ---------------------------------
(* Distances on the sphere and the index that finds close points.              *)
(* All distances are integers in centimetres.  Points of a "dist" event carry  *)
(* their coordinates in thousandths of a degree (mlat, mlon) so that the laws  *)
(* below can be stated on the coordinates themselves; ref is an independently  *)
(* computed great circle distance.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Dist(x, y) == IF x < y THEN y - x ELSE x - y
Near(x, y, tol) == Dist(x, y) <= tol
Half == 2001500000              \* half the circumference of the Earth, roughly
(* the cosine is evaluated with a relative error of 2^-52 or so: around 0 and around Half the distance is off by up to 30 cm *)
Slack == 60

(* n points, d and ref are n*n matrices stored row by row *)
DistOK(e) == LET n == e.n
                 d(i, j) == e.d[(i - 1) * n + j]
                 r(i, j) == e.ref[(i - 1) * n + j]
                 lat(i) == e.mlat[i]  lon(i) == e.mlon[i]
                 dlon(i, j) == LET x == Dist(lon(i), lon(j)) IN IF x > 180000 THEN 360000 - x ELSE x
                 tol(i, j) == Slack + d(i, j) \div 10000000 IN
    /\ Len(e.d) = n * n
    /\ \A i, j \in 1 .. n :
        /\ d(i, j) >= 0 /\ d(i, j) <= Half + 500000                             \* a number, at most half way around
        /\ Near(d(i, j), d(j, i), 30)                                            \* symmetric
        /\ Near(d(i, j), r(i, j), tol(i, j) + r(i, j) \div 200000)                \* the great circle distance, up to the choice of the radius
        /\ (lat(i) = lat(j) /\ lon(i) = lon(j)) => d(i, j) <= Slack
        (* 180000 thousandths of a degree along a meridian or the equator are half the circumference *)
        /\ (lon(i) = lon(j)) => Near(d(i, j), Dist(lat(i), lat(j)) * 11119, Slack + Dist(lat(i), lat(j)))
        /\ (lat(i) = 0 /\ lat(j) = 0) => Near(d(i, j), dlon(i, j) * 11119, Slack + dlon(i, j))
        (* the poles are at the same distance from all points of a parallel, whatever the longitude *)
        /\ (lat(i) = 90000) => Near(d(i, j), (90000 - lat(j)) * 11119, Slack + 90000 - lat(j))
        /\ (lat(i) = -90000) => Near(d(i, j), (90000 + lat(j)) * 11119, Slack + 90000 + lat(j))
        /\ d(i, j) + Slack >= 11119 * Dist(lat(i), lat(j)) - Dist(lat(i), lat(j))   \* never shorter than the difference in latitude
    (* the triangle inequality; halved so that sums fit the integers of TLC *)
    /\ \A i, j, k \in 1 .. n : d(i, k) \div 2 <= d(i, j) \div 2 + d(j, k) \div 2 + Slack
    (* moving two points by the same longitude, mirroring them, or exchanging their latitudes changes nothing *)
    /\ \A i, j, k, l \in 1 .. n :
         (dlon(i, j) = dlon(k, l) /\ ({lat(i), lat(j)} = {lat(k), lat(l)} \/ {lat(i), lat(j)} = {-lat(k), -lat(l)})
            /\ (lat(i) = lat(j)) = (lat(k) = lat(l))) => Near(d(i, j), d(k, l), Slack + d(i, j) \div 10000000)
    (* a point and its antipode add up to half the circumference *)
    /\ \A i, j, k \in 1 .. n : (lat(j) = - lat(i) /\ dlon(i, j) = 180000) => Near(d(i, k) \div 2 + d(k, j) \div 2, d(i, j) \div 2, Slack)

(* nearest point and all points within a radius, given the reference distances of all points from the query position *)
NearestOK(e) == LET n == Len(e.ref) IN
    IF e.id = -1 THEN \A i \in 1 .. n : e.ref[i] > e.rad - e.tol
    ELSE /\ e.id \in 0 .. n - 1
         /\ e.ref[e.id + 1] <= e.rad + e.tol
         /\ \A i \in 1 .. n : e.ref[i] >= e.ref[e.id + 1] - e.tol
         /\ Near(e.d, e.ref[e.id + 1], e.tol)
AllOK(e) == LET n == Len(e.ref) IN
    /\ Len(e.ids) = Cardinality(ToSet(e.ids)) /\ Len(e.ds) = Len(e.ids)
    /\ \A k \in DOMAIN e.ids : e.ids[k] \in 0 .. n - 1 /\ e.ref[e.ids[k] + 1] <= e.rad + e.tol /\ Near(e.ds[k], e.ref[e.ids[k] + 1], e.tol)
    /\ \A i \in 1 .. n : e.ref[i] <= e.rad - e.tol => (i - 1) \in ToSet(e.ids)
    \* ref = -1 marks points at the query position itself: they have the same distance, so all or none of them lie within the radius
    /\ LET S == {k - 1 : k \in {l \in 1 .. n : e.ref[l] = -1}}  T == ToSet(e.ids) IN S \subseteq T \/ S \cap T = {}
=============================================================================
