------------------------------ MODULE OsmProfile ------------------------------
(* The meaning of OSM tags for cars, bicycles and pedestrians.                  *)
(* Tags are sequences of records with fields k and v, every key at most once.   *)
(* The value of maxspeed is given in parsed form, as a sequence ms of parts     *)
(* [w |-> word or "", n |-> number, u |-> unit].                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Has(T, k) == \E i \in DOMAIN T : T[i].k = k
Val(T, k) == T[CHOOSE i \in DOMAIN T : T[i].k = k].v
Is(T, k, V) == Has(T, k) /\ Val(T, k) \in V

Ferry(T) == Is(T, "route", {"ferry"})
(* ------------------------------------------------------------- who may use it *)
CarRoads == {"motorway", "trunk", "primary", "secondary", "tertiary", "unclassified", "residential", "service", "motorway_link", "trunk_link", "primary_link",
             "secondary_link", "tertiary_link", "motorway_junction", "living_street", "track", "ferry"}
NoCarRoads == {"construction", "path", "footway", "cycleway", "bridleway", "pedestrian", "bus_guideway", "raceway", "escape", "steps", "proposed", "conveying"}
UsedByCars(T) ==
    IF Has(T, "junction") \/ Ferry(T) \/ Is(T, "ferry", {"yes"}) THEN TRUE
    ELSE IF ~Has(T, "highway") \/ Is(T, "motorcar", {"no"}) \/ Is(T, "motor_vehicle", {"no"}) THEN FALSE
    ELSE IF Has(T, "access") /\ ~Is(T, "access", {"yes", "permissive", "delivery", "designated", "destination"}) THEN FALSE
    ELSE LET h == Val(T, "highway") IN
         IF h \in CarRoads THEN TRUE
         ELSE IF h = "bicycle_road" THEN Is(T, "motorcar", {"yes"})
         ELSE IF h \in NoCarRoads \/ Is(T, "oneway", {"reversible", "alternating"}) THEN FALSE
         ELSE Has(T, "maxspeed")
OpenAccess == {"yes", "permissive", "delivery", "designated", "destination", "agricultural", "forestry", "public"}
SlowRoads == {"secondary", "tertiary", "unclassified", "residential", "service", "secondary_link", "tertiary_link", "living_street", "track", "bicycle_road",
              "path", "footway", "cycleway", "bridleway", "pedestrian", "escape", "steps", "crossing", "ferry"}
UsedByBicycles(T) ==
    IF Has(T, "junction") \/ Ferry(T) \/ Is(T, "ferry", {"ferry"}) THEN TRUE
    ELSE IF ~Has(T, "highway") \/ Is(T, "highway", {"proposed"}) THEN FALSE
    ELSE IF (Has(T, "access") /\ ~Is(T, "access", OpenAccess)) \/ Is(T, "bicycle", {"no", "use_sidepath"}) THEN FALSE
    ELSE IF \E k \in {"cycleway", "cycleway:left", "cycleway:right", "cycleway:both"} : Has(T, k) THEN TRUE
    ELSE Val(T, "highway") \in SlowRoads \cup {"primary", "primary_link"}
UsedByPedestrians(T) ==
    IF Has(T, "junction") \/ Ferry(T) \/ Is(T, "ferry", {"ferry"}) \/ Is(T, "public_transport", {"stop_position", "platform", "stop_area", "station"})
       \/ Is(T, "railway", {"halt", "platform", "subway_entrance", "station", "tram_stop"}) THEN TRUE
    ELSE IF ~Has(T, "highway") \/ (Has(T, "access") /\ ~Is(T, "access", OpenAccess)) \/ Is(T, "crossing", {"no"}) THEN FALSE
    ELSE Val(T, "highway") \in SlowRoads \cup {"escalator", "elevator", "platform"}

(* ------------------------------------------------- directions: f, b, 2 (both), c (closed) *)
Yes == {"yes", "true", "1"}
No == {"no", "false", "0"}
Back == {"-1", "reverse", "backward"}
(* the set of admissible answers; what an unknown value of oneway means for cars is left open *)
CarDirs(T) ==
    IF Has(T, "oneway") THEN LET o == Val(T, "oneway") IN
        IF o \in Back THEN {"b"} ELSE IF o \in Yes THEN {"f"} ELSE IF o \in No THEN {"2"} ELSE IF o \in {"reversible", "alternating"} THEN {"c"} ELSE {"2", "c"}
    ELSE IF Is(T, "junction", {"roundabout"}) \/ Is(T, "highway", {"motorway", "motorway_link"}) THEN {"f"} ELSE {"2"}
BicycleDir(T) ==
    IF Has(T, "oneway:bicycle") THEN LET o == Val(T, "oneway:bicycle") IN
        IF o \in {"-1", "opposite"} THEN "b" ELSE IF o \in {"1", "yes", "true", "no_planned"} THEN "f" ELSE IF o \in {"0", "no", "false", "tolerated", "permissive"} THEN "2" ELSE "c"
    ELSE IF ~Has(T, "oneway") \/ Is(T, "oneway", No) THEN "2"
    ELSE IF Is(T, "cycleway", {"opposite", "opposite_track", "opposite_lane", "opposite_share_busway"}) \/ Has(T, "cycleway:both")
            \/ (Has(T, "cycleway:left") /\ Has(T, "cycleway:right")) THEN "2"
    ELSE IF Is(T, "oneway", Back) THEN "b" ELSE IF Is(T, "oneway", Yes) THEN "f" ELSE "c"

(* -------------------------------------------------------------------- speeds *)
NoSpeed == 1000000000
Words == [x \in {"none", "unlimited"} |-> 130] @@ [x \in {"walk", "foot", "??:walk", "walking_pace", "schritt"} |-> 5] @@ [x \in {"??:urban", "urban"} |-> 40]
    @@ [x \in {"??:living_street", "living_street"} |-> 10] @@ [x \in {"de:rural", "at:rural", "ro:rural", "rural"} |-> 100] @@ [x \in {"ru:rural", "ua:rural"} |-> 90]
    @@ [x \in {"ru:motorway"} |-> 110] @@ [x \in {"ch:motorway"} |-> 120] @@ [x \in {"at:motorway", "ro:motorway", "de:motorway"} |-> 130] @@ [x \in {"national", "ro:trunk"} |-> 100]
    @@ [x \in {"dk:rural", "ch:rural", "fr:rural"} |-> 80] @@ [x \in {"it:rural", "hu:rural"} |-> 90] @@ [x \in {"de:zone:30", "de:zone30", "at:zone30"} |-> 30]
PartSpeed(p) == IF p.w # "" THEN (IF p.w \in DOMAIN Words THEN Words[p.w] ELSE NoSpeed)
                ELSE IF p.n < 0 THEN NoSpeed
                ELSE CASE p.u = "mph" -> (p.n * 1609) \div 1000 [] p.u = "knots" -> (p.n * 1852) \div 1000 [] OTHER -> p.n
Default == [x \in {"motorway"} |-> 90] @@ [x \in {"motorway_link"} |-> 45] @@ [x \in {"trunk"} |-> 85] @@ [x \in {"trunk_link", "tertiary"} |-> 40] @@ [x \in {"primary"} |-> 65]
    @@ [x \in {"primary_link"} |-> 30] @@ [x \in {"secondary"} |-> 55] @@ [x \in {"secondary_link", "unclassified", "residential"} |-> 25] @@ [x \in {"tertiary_link"} |-> 20]
    @@ [x \in {"living_street"} |-> 10] @@ [x \in {"service", "track"} |-> 8] @@ [x \in {"ferry"} |-> 5]
RoadSpeed(T) == IF Is(T, "highway", DOMAIN Default) THEN Default[Val(T, "highway")] ELSE IF Has(T, "junction") THEN 20 ELSE IF Ferry(T) \/ Has(T, "ferry") THEN 5 ELSE 50
Speed(T) == LET ms == IF Has(T, "maxspeed") THEN T[CHOOSE i \in DOMAIN T : T[i].k = "maxspeed"].ms ELSE << >>
                sp == Min({PartSpeed(ms[i]) : i \in DOMAIN ms} \cup {NoSpeed}) IN
            IF sp = NoSpeed THEN RoadSpeed(T) ELSE IF sp = 0 THEN 1 ELSE sp
Comfort(T) == IF Is(T, "highway", {"cycleway"}) THEN 4 ELSE IF Has(T, "cycleway") THEN (IF Is(T, "cycleway", {"track"}) THEN 3 ELSE 2)
              ELSE IF Is(T, "highway", {"primary", "primary_link"}) \/ Is(T, "bicycle", {"dismount"}) THEN 0 ELSE 1
Name(T) == IF Has(T, "name") /\ Has(T, "ref") THEN Val(T, "name") \o ";" \o Val(T, "ref") ELSE IF Has(T, "name") THEN Val(T, "name") ELSE IF Has(T, "ref") THEN Val(T, "ref") ELSE ""

ProfileOK(e) == LET T == e.tags IN
    /\ e.car = UsedByCars(T) /\ e.bike = UsedByBicycles(T) /\ e.foot = UsedByPedestrians(T)
    /\ e.cardir \in CarDirs(T) /\ e.bikedir = BicycleDir(T)
    /\ e.speed = Speed(T) /\ e.speed >= 1
    /\ e.minc = 0 /\ e.maxc = 4 /\ e.comfort = Comfort(T) /\ e.comfort \in e.minc .. e.maxc
    /\ e.name = Name(T)

(* ----------------------------------------------------------- turn restrictions *)
Cats == [x \in {"only_left_turn", "only_right_turn", "only_straight_on", "only_u_turn"} |-> "only"] @@ [x \in {"no_left_turn", "no_right_turn", "no_straight_on", "no_u_turn"} |-> "no"]
Dirs == [x \in {"only_left_turn", "no_left_turn"} |-> "left_turn"] @@ [x \in {"only_right_turn", "no_right_turn"} |-> "right_turn"]
        @@ [x \in {"only_straight_on", "no_straight_on"} |-> "straight_on"] @@ [x \in {"only_u_turn", "no_u_turn"} |-> "u_turn"]
(* members have fields t (0 node, 1 way, 2 relation), i and role *)
Restrictions(T, M) ==
    IF ~Is(T, "restriction", DOMAIN Cats) THEN {}
    ELSE LET r == Val(T, "restriction")
             via == {i \in DOMAIN M : M[i].role = "via"}
             W(role) == {i \in DOMAIN M : M[i].role = role /\ M[i].t = 1} IN
         IF Cardinality(via) > 1 \/ (\E i \in via : M[i].t # 0) THEN {}
         ELSE IF Cats[r] = "only" /\ (Cardinality(W("from")) # 1 \/ Cardinality(W("to")) # 1) THEN {}
         ELSE {[cat |-> Cats[r], dir |-> Dirs[r], from |-> M[f].i, to |-> M[t].i, via |-> IF via = {} THEN -1 ELSE M[CHOOSE i \in via : TRUE].i] : f \in W("from"), t \in W("to")}
RestrOK(e) == LET want == Restrictions(e.tags, e.mem)
                  got == {[cat |-> e.out[i].cat, dir |-> e.out[i].dir, from |-> e.out[i].from, to |-> e.out[i].to, via |-> e.out[i].via] : i \in DOMAIN e.out} IN
              got = want /\ \A i \in DOMAIN e.out : e.out[i].rel = 99
=============================================================================
