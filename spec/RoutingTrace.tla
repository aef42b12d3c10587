---------------------------- MODULE RoutingTrace ----------------------------
(* Is a recorded history of the real library a behaviour of Routing?  Each     *)
(* event carries the operation, its arguments and what the code returned.      *)
EXTENDS Routing, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Seeds(list) == FoldLeft(LAMBDA S, p : AddSeed(S, p[1], p[2]), None, list)

Step(e) ==
    CASE e.op = "scenario" -> st' = EmptyStore
      [] e.op = "graph" -> (GraphPre(e.g, e.n, e.tail, e.head) = TRUE) /\ st' = GraphPost(e.g, e.n, e.tail, e.head)
      [] e.op = "weights" -> (WeightsPre(e.w, e.v) = TRUE) /\ st' = WeightsPost(e.w, e.v)
      [] e.op = "setw" -> SetWeightPre(e.w, e.a, e.x) /\ st' = SetWeightPost(e.w, e.a, e.x)
      [] e.op = "cert" -> LET S == Seeds(e.seeds)  ws == st.w[e.w] IN
            (CertPre(e.g, ws, e.dir, S, e.pot, e.pred, e.ord) = TRUE) /\ st' = CertPost(e.g, ws, e.dir, S, e.pot)
      [] e.op = "ch" -> BuildPre(e.h, e.g, e.w) /\ st' = BuildPost(e.h, e.g, e.w)
      [] e.op = "ch_alias" -> AliasChPre(e.h, e.old) /\ st' = AliasChPost(e.h, e.old)
      [] e.op = "ch_nosave" -> e.h \in DOMAIN st.ch /\ e.res = "rejected" /\ st' = st
      [] e.op = "ch_bad" -> DamagedChPre(e.h, e.reader, e.kind) /\ DamagedChOK(e.reader, e.kind, e.res) /\ st' = st
      [] e.op = "ch_dump" -> ChDumpPre(e.h) /\ (ChDumpOK(e.h, e) = TRUE) /\ st' = st
      [] e.op = "cch_dump" -> CchDumpPre(e.c) /\ (CchDumpOK(e.c, e) = TRUE) /\ st' = st
      [] e.op = "m_dump" -> MetricDumpPre(e.m) /\ (MetricDumpOK(e.m, e) = TRUE) /\ st' = st
      [] e.op = "perfect_dump" -> ChDumpPre(e.h) /\ (PerfectDumpOK(e.h, e) = TRUE) /\ st' = st
      [] e.op = "cch" -> CchPre(e.c, e.g) /\ st' = CchPost(e.c, e.g)
      [] e.op = "cch_alias" -> AliasCchPre(e.c, e.old) /\ st' = AliasCchPost(e.c, e.old)
      [] e.op = "metric" -> MetricPre(e.m, e.c, e.w) /\ st' = MetricPost(e.m, e.c, e.w)
      [] e.op = "m_alias" -> AliasMetricPre(e.m, e.old) /\ st' = AliasMetricPost(e.m, e.old)
      [] e.op = "m_weights" -> MetricWeightsPre(e.m, e.w) /\ st' = MetricWeightsPost(e.m, e.w)
      [] e.op = "m_rebind" -> MetricRebindPre(e.m, e.c, e.w) /\ st' = MetricRebindPost(e.m, e.c, e.w)
      [] e.op = "customize" -> CustomizePre(e.m) /\ st' = CustomizePost(e.m)
      [] e.op = "par" -> ParPre(e.x, e.c) /\ st' = ParPost(e.x, e.c)
      [] e.op = "pcustomize" -> ParCustomizePre(e.x, e.m) /\ st' = CustomizePost(e.m)
      [] e.op = "part" -> PartPre(e.p, e.c) /\ st' = PartPost(e.p, e.c)
      [] e.op = "p_reset" -> PartResetPre(e.p) /\ st' = PartResetPost(e.p)
      [] e.op = "p_update" -> PartUpdatePre(e.p, e.a) /\ st' = PartUpdatePost(e.p, e.a)
      [] e.op = "p_customize" -> (PartCustomizePre(e.p, e.m) = TRUE) /\ st' = PartCustomizePost(e.p, e.m)
      [] e.op = "perfect" -> PerfectPre(e.h, e.m) /\ st' = PerfectPost(e.h, e.m)
      [] e.op = "query" -> QueryPre(e.q, e.kind, e.b) /\ st' = QueryPost(e.q, e.kind, e.b)
      [] e.op = "query0" -> st' = DefaultQueryPost(e.q, e.kind)
      [] e.op = "q_alias" -> AliasQueryPre(e.q, e.old) /\ st' = AliasQueryPost(e.q, e.old)
      [] e.op = "q_reset" -> QResetPre(e.q) /\ st' = QResetPost(e.q)
      [] e.op = "q_rebind" -> QRebindPre(e.q, e.b) /\ st' = QRebindPost(e.q, e.b)
      [] e.op = "src" -> AddSourcePre(e.q, e.x, e.off) /\ st' = AddSourcePost(e.q, e.x, e.off)
      [] e.op = "tgt" -> AddTargetPre(e.q, e.x, e.off) /\ st' = AddTargetPost(e.q, e.x, e.off)
      [] e.op = "run" -> RunPre(e.q) /\ st' = SetPhase(e.q, "run")
      [] e.op = "res" -> ResultPre(e.q, "run") /\ st' = st /\
            LET q == st.q[e.q] IN (RouteOK(View(q.kind, q.b), q.S, q.T, e) = TRUE)
      [] e.op = "pin_t" -> (PinPre(e.q, e.list) = TRUE) /\ st' = PinPost(e.q, "tpin", e.list)
      [] e.op = "pin_s" -> (PinPre(e.q, e.list) = TRUE) /\ st' = PinPost(e.q, "spin", e.list)
      [] e.op = "run_t" -> RunPinnedPre(e.q, "tpin") /\ st' = SetPhase(e.q, "trun")
      [] e.op = "run_s" -> RunPinnedPre(e.q, "spin") /\ st' = SetPhase(e.q, "srun")
      [] e.op = "reset_s" -> ResetSourcePre(e.q) /\ st' = ResetSourcePost(e.q)
      [] e.op = "reset_t" -> ResetTargetPre(e.q) /\ st' = ResetTargetPost(e.q)
      [] e.op = "res_t" -> ResultPre(e.q, "trun") /\ st' = st /\
            LET q == st.q[e.q] IN (PinnedToOK(View(q.kind, q.b), q.S, q.pins, e) = TRUE)
      [] e.op = "res_s" -> ResultPre(e.q, "srun") /\ st' = st /\
            LET q == st.q[e.q] IN (PinnedFromOK(View(q.kind, q.b), q.T, q.pins, e) = TRUE)
      (* extra weights: the paths obtained by linking arc ids, and scalar values along them *)
      [] e.op = "ew" -> ResultPre(e.q, "run") /\ st' = st /\
            LET q == st.q[e.q]  v == View(q.kind, q.b)  x == st.w[e.w]  best == Best(v, q.S, q.T) IN
            /\ IF best = Inf THEN e.raw = << >> ELSE SomeWalkFits(v, q.S, q.T, best, e.raw)
            /\ e.pre = e.raw
            /\ e.u = LinkU(x, e.raw) /\ e.up = e.u
            /\ e.i = LET il(acc, a) == IAdd(acc, e.ix[a + 1]) IN IF e.raw = << >> THEN 0 ELSE FoldLeft(il, e.ix[e.raw[1] + 1], Tail(e.raw))
            /\ e.ip = e.i
      [] e.op = "ew_p" -> st' = st /\
            LET q == st.q[e.q]  v == View(q.kind, q.b)  x == st.w[e.w] IN
            /\ IF q.ph = "trun" THEN ResultPre(e.q, "trun") /\ PinnedToOK(v, q.S, q.pins, e)
                                ELSE ResultPre(e.q, "srun") /\ PinnedFromOK(v, q.T, q.pins, e)
            /\ e.pre = e.paths
            /\ Len(e.u) = Len(q.pins) /\ \A i \in DOMAIN q.pins : e.u[i] = LinkU(x, e.paths[i])
            /\ e.up = e.u
      (* a complete one-shot query / table of queries on fresh or reused query objects *)
      [] e.op = "route" -> st' = st /\ Usable(e.kind, e.b) /\ (RouteOK(View(e.kind, e.b), Seeds(e.S), Seeds(e.T), e) = TRUE)
      [] e.op = "table" -> st' = st /\ Usable(e.kind, e.b) /\
            LET v == View(e.kind, e.b)  n == v.g.n IN
            \A s \in Nodes(n) : \A t \in Nodes(n) :
                 LET D == v.D[s][t] IN
                 /\ Has(e, "dist") => e.dist[s + 1][t + 1] = D
                 /\ Has(e, "arcs") =>
                      LET arcs == e.arcs[s + 1][t + 1]  nodes == e.nodes[s + 1][t + 1] IN
                      IF D = Inf THEN arcs = << >> /\ nodes = << >>
                      ELSE IsWalk(v.g.tail, v.g.head, s, t, arcs) /\ nodes = NodesOfWalk(v.g.head, s, arcs) /\ WalkLength(v.w, arcs) = D
      [] e.op = "dij" -> DijPre(e.x, e.g) /\ st' = DijPost(e.x, e.g)
      [] e.op = "d_src" -> DijAddPre(e.x, e.s, e.off) /\ st' = DijAddPost(e.x, e.s, e.off)
      [] e.op = "settle" -> LET ws == st.w[e.w] IN
            DijSettlePre(e.x, ws, e.per) /\ DijSettleOK(e.x, e.node, e.dist) /\ st' = DijSettlePost(e.x, ws, e.per, e.node)
      (* a whole search on a graph with a certificate: every reachable node is settled once, in the order of distances *)
      [] e.op = "d_all" -> e.x \in DOMAIN st.d /\ st.d[e.x].done = {} /\ st' = DijPost(e.x, st.d[e.x].g) /\ (DijAllOK(e.x, st.w[e.w], e) = TRUE)
      [] e.op = "d_state" -> e.x \in DOMAIN st.d /\ st' = st /\ (DijStateOK(e.x, e) = TRUE)

Init == st = EmptyStore /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<st, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
