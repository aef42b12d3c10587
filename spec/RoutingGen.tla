----------------------------- MODULE RoutingGen -----------------------------
(* Produces histories of the routing interface: TLC simulates Routing with      *)
(* random arguments and prints the script of every behaviour of length Depth.   *)
(* Only operations whose precondition holds are taken.                          *)
EXTENDS Routing, Json, IOUtils

VARIABLES hist, k, dat

Depth == atoi(IOEnv.DEPTH)
MaxN == atoi(IOEnv.MAXN)
Focus == IOEnv.FOCUS   \* "query", "cch", "pin", "all": which operations are preferred

(* mentions a variable so that TLC does not treat (and cache) it as a constant *)
R(S) == RandomElement(IF k >= 0 THEN S ELSE {})
Str(x) == ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN Str(s[1]) ELSE Str(s[1]) \o " " \o Join(Tail(s))
Lst(s) == Str(Len(s)) \o " " \o Join(s)

RandWeight(kind) == IF kind = 1 THEN R(0 .. 3) ELSE IF kind = 2 THEN R(1 .. 100) ELSE IF kind = 3 THEN R({0, 1, 5, Inf}) ELSE R({1, 2, 7, Inf \div 2, Inf - 1, Inf})
Vec(len, kind) == TLCEval([i \in 1 .. len |-> RandWeight(kind)])
NodeVec(len, n) == TLCEval([i \in 1 .. len |-> R(0 .. n - 1)])
RandGraph(n) == LET m == TLCEval(R(0 .. 3 * n)) IN TLCEval([n |-> n, tail |-> NodeVec(m, n), head |-> NodeVec(m, n)])
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN << >> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Shuffle(S \ {x})

(* graphs 0 and 1 have the same number of nodes, graph 2 another one *)
Data(u) == LET n == TLCEval(R(1 .. MaxN))  n2 == TLCEval(R(1 .. MaxN))  g0 == TLCEval(RandGraph(n))  g1 == TLCEval(RandGraph(n))  g2 == TLCEval(RandGraph(n2))
        IN [g |-> <<g0, g1, g2>>,
            w |-> <<Vec(Len(g0.tail), R(1 .. 4)), Vec(Len(g0.tail), R(1 .. 4)), Vec(Len(g1.tail), R(1 .. 3)), Vec(Len(g2.tail), R(1 .. 3))>>,
            order |-> <<Shuffle(0 .. n - 1), Shuffle(0 .. n - 1), Shuffle(0 .. n2 - 1)>>]

GLine(i) == "graph " \o Str(i) \o " " \o Str(dat.g[i + 1].n) \o " " \o Lst(dat.g[i + 1].tail) \o " " \o Lst(dat.g[i + 1].head)
WLine(i) == "weights " \o Str(i) \o " " \o Lst(dat.w[i + 1])
OLine(i) == Lst(dat.order[i + 1])

Do(line, s2) == st' = s2 /\ hist' = Append(hist, line)

Setup(j) ==
    CASE j \in 1 .. 3 -> LET g == dat.g[j] IN Do(GLine(j - 1), GraphPost(j - 1, g.n, g.tail, g.head))
      [] j \in 4 .. 7 -> Do(WLine(j - 4), WeightsPost(j - 4, dat.w[j - 3]))
      [] j = 8 -> Do("ch 0 0 0 auto 500", BuildPost(0, 0, 0))
      [] j = 9 -> Do("ch 1 1 2 order " \o OLine(1) \o " 500", BuildPost(1, 1, 2))
      [] j = 10 -> Do("ch 2 0 1 rank " \o OLine(0) \o " 1", BuildPost(2, 0, 1))
      [] j = 11 -> Do("ch 3 2 3 auto 5", BuildPost(3, 2, 3))
      [] j = 12 -> Do("cch 0 0 0 " \o OLine(0), CchPost(0, 0))
      [] j = 13 -> Do("cch 1 1 1 " \o OLine(1), CchPost(1, 1))
      [] j = 14 -> Do("cch 2 2 0 " \o OLine(2), CchPost(2, 2))
      [] j = 15 -> Do("metric 0 0 0 vec", MetricPost(0, 0, 0))
      [] j = 16 -> Do("metric 1 0 1 ptr", MetricPost(1, 0, 1))
      [] j = 17 -> Do("metric 2 1 2 vec", MetricPost(2, 1, 2))
      [] j = 18 -> Do("metric 3 2 3 default", MetricPost(3, 2, 3))
      [] j \in 19 .. 22 -> Do("customize " \o Str(j - 19), CustomizePost(j - 19))
      [] j = 23 -> Do("query 0 ch 0", QueryPost(0, "ch", 0))
      [] j = 24 -> Do("query0 1 ch", DefaultQueryPost(1, "ch"))
      [] j = 25 -> Do("query 2 cch 0", QueryPost(2, "cch", 0))
      [] j = 26 -> Do("query0 3 cch", DefaultQueryPost(3, "cch"))
      [] j = 27 -> Do("part 0 0 new", PartPost(0, 0))
      [] j = 28 -> Do("par 0 0 new", ParPost(0, 0))
SetupLen == 28

(* operations that make sense for query q in its current phase (repetition = preference) *)
OpChoices(q) ==
    LET r == st.q[q] IN
    IF r.b = NoId THEN <<2, 2, 32>>
    ELSE IF r.ph = "init" THEN (IF r.S = None /\ r.T = None THEN <<3, 6, 15, 16, 2>>
                                ELSE IF r.S = None \/ r.T = None THEN <<3, 6, 3, 6, 3, 6, 1, 2>> ELSE <<3, 6, 9, 9, 9, 9, 9, 1>>)
    ELSE IF r.ph = "run" THEN <<12, 12, 12, 12, 1, 1, 2, 32>>
    ELSE IF r.ph = "tpin" THEN <<3, 3, 17, 17, 17, 23, 1>>
    ELSE IF r.ph = "spin" THEN <<6, 6, 17, 17, 17, 24, 1>>
    ELSE <<20, 20, 20, 23, 23, 24, 24, 1, 2, 32>>
PickOp(q, d) == IF d <= 3 /\ Focus # "query" THEN R(25 .. 33) ELSE LET c == OpChoices(q) IN c[R(DOMAIN c)]
A(ok, line, s2) == ok /\ Do(line, s2)

Ops(c, q, x, y, off) ==
    \/ c = 1 /\ A(QResetPre(q), "q_reset " \o Str(q), QResetPost(q))
    \/ c = 2 /\ A(QRebindPre(q, y), "q_rebind " \o Str(q) \o " " \o Str(y), QRebindPost(q, y))
    \/ c \in 3 .. 5 /\ A(AddSourcePre(q, x, off), "src " \o Str(q) \o " " \o Str(x) \o " " \o Str(off), AddSourcePost(q, x, off))
    \/ c \in 6 .. 8 /\ A(AddTargetPre(q, x, off), "tgt " \o Str(q) \o " " \o Str(x) \o " " \o Str(off), AddTargetPost(q, x, off))
    \/ c \in 9 .. 11 /\ A(RunPre(q), "run " \o Str(q), SetPhase(q, "run"))
    \/ c \in 12 .. 14 /\ A(ResultPre(q, "run"), "res " \o Str(q) \o " " \o R({"duna", "nuad", "and", "vdan", "du"}), st)
    \/ c = 15 /\ \E list \in {TLCEval([i \in 1 .. R(0 .. 5) |-> R(0 .. MaxN - 1)])} :
                 A(PinPre(q, list), "pin_t " \o Str(q) \o " " \o Lst(list), PinPost(q, "tpin", list))
    \/ c = 16 /\ \E list \in {TLCEval([i \in 1 .. R(0 .. 5) |-> R(0 .. MaxN - 1)])} :
                 A(PinPre(q, list), "pin_s " \o Str(q) \o " " \o Lst(list), PinPost(q, "spin", list))
    \/ c \in 17 .. 19 /\ A(RunPinnedPre(q, "tpin"), "run_t " \o Str(q), SetPhase(q, "trun"))
    \/ c \in 17 .. 19 /\ A(RunPinnedPre(q, "spin"), "run_s " \o Str(q), SetPhase(q, "srun"))
    \/ c \in 20 .. 22 /\ A(ResultPre(q, "trun"), "res_t " \o Str(q) \o (IF st.q[q].kind = "ch" THEN R({" du", " pw", " ud"}) ELSE R({" d", " p"})), st)
    \/ c \in 20 .. 22 /\ A(ResultPre(q, "srun"), "res_s " \o Str(q) \o (IF st.q[q].kind = "ch" THEN R({" du", " pw", " ud"}) ELSE R({" d", " p"})), st)
    \/ c = 23 /\ A(ResetSourcePre(q), "reset_s " \o Str(q), ResetSourcePost(q))
    \/ c = 24 /\ A(ResetTargetPre(q), "reset_t " \o Str(q), ResetTargetPost(q))
    \/ c \in 25 .. 26 /\ Focus \in {"all", "cch"} /\ st.w[y] # None /\
          \E a \in {R(DOMAIN st.w[y]) - 1}, v \in {RandWeight(R(1 .. 4))} :
          A(SetWeightPre(y, a, v), "setw " \o Str(y) \o " " \o Str(a) \o " " \o Str(v), SetWeightPost(y, a, v))
    \/ c = 27 /\ Focus \in {"all", "cch"} /\ A(CustomizePre(y), "customize " \o Str(y), CustomizePost(y))
    \/ c = 28 /\ Focus \in {"all", "cch"} /\ st.w[0] # None /\
          \E a \in {R(DOMAIN st.w[0]) - 1} : A(PartUpdatePre(0, a), "p_update 0 " \o Str(a), PartUpdatePost(0, a))
    \/ c = 29 /\ Focus \in {"all", "cch"} /\ \E m \in {R(0 .. 1)} :
          A(PartCustomizePre(0, m), "p_customize 0 " \o Str(m), PartCustomizePost(0, m))
    \/ c = 30 /\ Focus \in {"all", "cch"} /\ \E m \in {R(0 .. 1)}, ww \in {R(0 .. 1)} :
          A(MetricWeightsPre(m, ww), "m_weights " \o Str(m) \o " " \o Str(ww) \o " vec", MetricWeightsPost(m, ww))
    \/ c = 31 /\ Focus \in {"all", "cch"} /\ \E m \in {R(0 .. 1)} :
          A(ParCustomizePre(0, m), "pcustomize 0 " \o Str(m) \o " " \o Str(R(1 .. 3)), CustomizePost(m))
    \/ c = 32 /\ LET q2 == IF q < 2 THEN 1 - q ELSE 5 - q IN
          A(AliasQueryPre(q, q2), "q_alias " \o Str(q) \o " " \o Str(q2) \o " copy", AliasQueryPost(q, q2))
    \/ c = 33 /\ Focus \in {"all", "cch"} /\ \E b \in {R({<<0, 0>>, <<0, 1>>, <<1, 2>>, <<2, 3>>})} :
          A(MetricRebindPre(y, b[1], b[2]), "m_rebind " \o Str(y) \o " " \o Str(b[1]) \o " " \o Str(b[2]) \o " vec", MetricRebindPost(y, b[1], b[2]))

Init == st = EmptyStore /\ hist = << >> /\ k = 0 /\ dat = << >>
Next == /\ k' = k + 1
        /\ dat' = IF k = 0 THEN TLCEval(Data(k)) ELSE dat
        /\ IF k = 0 THEN UNCHANGED <<st, hist>>
           ELSE IF k <= SetupLen THEN Setup(k)
           ELSE IF k >= Depth THEN k = Depth /\ PrintT(<<"HIST", ToJson(hist)>>) /\ UNCHANGED <<st, hist>>
           ELSE \E q \in {R(0 .. 3)}, x \in {R(0 .. MaxN - 1)}, y \in {R(0 .. 3)}, off \in {R({0, 1, 2, 3, 10, 1000, Inf \div 2, Inf - 1})} :
                \E c \in {PickOp(q, R(1 .. 10))} :
                  \/ Ops(c, q, x, y, off)
                  \/ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_<<st, hist, k, dat>>
=============================================================================
