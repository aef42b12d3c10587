------------------------------ MODULE ToolsTrace ------------------------------
(* Recorded runs of the command line tools in a directory.  The state is the content of the directory, what the   *)
(* hierarchies in it stand for, the last text printed by decode_vector, reference lengths, and the results of      *)
(* randomised tools (equal arguments must give equal results).                                                     *)
EXTENDS Tools, Json, IOUtils
VARIABLES l, files, chs, last, ref, memo
vars == <<l, files, chs, last, ref, memo>>
T == ndJsonDeserialize(IOEnv.TRACE)
E == T[l]
Empty == [j \in {} |-> 0]
None == [type |-> "", lines |-> << >>, raw |-> << >>]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Without(fn, S) == [x \in DOMAIN fn \ S |-> fn[x]]
Arg(i) == IF i <= Len(E.args) THEN E.args[i] ELSE ""
RunOK == CASE E.tool = "encode_vector" -> EncodeOK(files, last, E)
           [] E.tool = "decode_vector" -> DecodeOK(files, E)
           [] E.tool = "compare_vector" -> CompareOK(files, E)
           [] E.tool = "generate_constant_vector" -> ConstantOK(files, E)
           [] E.tool = "convert_road_dimacs_graph" -> ConvertGraphOK(files, E)
           [] E.tool = "convert_road_dimacs_coordinates" -> ConvertCoordOK(files, E)
           [] E.tool = "export_road_dimacs_graph" -> ExportOK(files, E)
           [] E.tool = "graph_to_dot" -> DotOK(files, E)
           [] E.tool = "graph_to_svg" -> SvgOK(files, E)
           [] E.tool = "randomly_permute_nodes" -> PermuteOK(files, E)
           [] E.tool = "run_dijkstra" -> RunDijkstraOK(files, E)
           [] E.tool = "compute_contraction_hierarchy" -> BuildCHOK(files, E)
           [] E.tool = "run_contraction_hierarchy_query" -> QueryCHOK(files, chs, E)
           [] E.tool = "examine_ch" -> ExamineOK(files, chs, E)
           [] E.tool = "show_path" -> ShowPathOK(files, chs, E)
           [] E.tool = "generate_test_queries" -> QueriesOK(files, E)
           [] E.tool = "generate_random_node_list" -> NodeListOK(files, E)
           [] E.tool = "generate_random_source_times" -> TimesOK(files, E)
           [] E.tool = "generate_dijkstra_rank_test_queries" -> RankOK(files, E)
           [] E.tool = "compute_geographic_distance_weights" -> GeoWeightsOK(files, ref, E)
           [] E.tool = "compute_nested_dissection_order" -> OrderOK(files, E)
Randomised == {"randomly_permute_nodes", "generate_test_queries", "generate_random_node_list", "generate_random_source_times", "generate_dijkstra_rank_test_queries"}
Given == [i \in DOMAIN E.args |-> IF Has(files, E.args[i]) /\ (E.tool = "randomly_permute_nodes" \/ i <= 4) THEN files[E.args[i]] ELSE <<E.nums[i]>>]
Result == [i \in DOMAIN E.args |-> IF Exists(files, E, E.args[i]) THEN After(files, E, E.args[i]) ELSE << >>]
Key == <<E.tool, Given>>
Step ==
    CASE E.op = "scenario" -> files' = Empty /\ chs' = Empty /\ last' = None /\ ref' = << >> /\ memo' = Empty
      [] E.op = "put" -> files' = Put(files, E.f, E.raw) /\ chs' = Without(chs, {E.f}) /\ UNCHANGED <<last, ref, memo>>
      [] E.op = "del" -> files' = Without(files, {E.f}) /\ chs' = Without(chs, {E.f}) /\ UNCHANGED <<last, ref, memo>>
      [] E.op = "ref" -> ref' = E.v /\ UNCHANGED <<files, chs, last, memo>>
      [] E.op = "run" ->
           /\ RunOK = TRUE
           /\ files' = Update(files, E)
           /\ chs' = IF E.tool = "compute_contraction_hierarchy" /\ ~E.err THEN Put(chs, Arg(4), Graph3(files, E, 1)) ELSE Without(chs, Wrote(E))
           /\ last' = IF E.tool = "decode_vector" /\ ~E.err THEN [type |-> Arg(1), lines |-> E.out, raw |-> files[Arg(2)]] ELSE last
           /\ IF E.tool \in Randomised /\ ~E.err
              THEN (Key \in DOMAIN memo => memo[Key] = Result) /\ memo' = Put(memo, Key, Result)
              ELSE UNCHANGED memo
           /\ UNCHANGED ref
Init == l = 1 /\ files = Empty /\ chs = Empty /\ last = None /\ ref = << >> /\ memo = Empty
Next == l <= Len(T) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
