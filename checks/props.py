"""The properties: what is claimed, where it is anchored, how it is decided."""
PROPS = []
TV = "TLA+ specification checked with TLC; recorded histories of the real code validated against it (trace validation)"
GEN = "TLA+ specification checked with TLC; TLC-generated histories replayed into the real code and trace-validated"
MOD = "TLA+ design model explored exhaustively with TLC; recorded histories of the real code trace-validated against the specification"


def P(id, title, statement, over, text, tests, files, mech, technique, note, state=None, observe=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=a,
                      technique=technique, note=note, na=na))


CHF = ["src/contraction_hierarchy.cpp", "include/routingkit/contraction_hierarchy.h"]
CCHF = ["src/customizable_contraction_hierarchy.cpp", "include/routingkit/customizable_contraction_hierarchy.h"]
BASE_NOTE = "Exhaustive within the stated bounds on the specification; the real code is executed on the generated scenarios only. Trusted: TLC, the harness' mapping of script operations to calls, the compiler. "

P("P01", "CH distances equal shortest path distances",
  "For every directed multigraph with non-negative arc weights and every way of building a contraction hierarchy (automatic or prescribed order, any witness search limit), the distance a query reports between two nodes is exactly the length of a shortest path in the input graph. If no path of length below the infinity weight exists, the reported distance is the infinity weight.",
  ["inputs", "configurations"], "all graphs (loops, parallel arcs, disconnected parts, zero and huge weights), all contraction orders, all witness search limits, all source/target pairs",
  "Tests run a few queries on one fixed random graph per run; they do not vary order, witness limit, zero or near-infinity weights, loops or parallel arcs.",
  CHF, [("node contraction with witness search", "ContractionHierarchy::build_given_order / build_using_order_*"), ("bidirectional upward search with stall-on-demand", "ContractionHierarchyQuery::run")],
  MOD, BASE_NOTE + "Design model CHModel: all 3-node graphs (4 weights), all orders, all witness search outcomes. Code: all 3-node graphs with all orders (sampled in quick), seeded graphs up to 20 nodes with all pairs, larger graphs with distance certificates verified by the specification.",
  state=[("forward/backward search graphs", "upward arcs and shortcuts", "ContractionHierarchy::forward, backward")], observe=["ContractionHierarchyQuery::get_distance"])
P("P02", "CH paths are shortest paths of the input graph",
  "After a contraction hierarchy query the reported arc path is a contiguous walk of input arcs from the used source to the used target whose length plus offsets is the reported distance, and the reported node path is the sequence of nodes that walk visits. If there is no path both are empty.",
  ["inputs", "configurations"], "all graphs, build orders, witness limits, source and target sets",
  "Tests unpack paths of one graph instance; wrong arc ids for parallel arcs or shortcuts of shortcuts only show on particular inputs.",
  CHF, [("shortcut unpacking", "unpack_forward_arc / unpack_backward_arc"), ("translation to input arc ids", "ContractionHierarchy::build_*, sort_ch_arcs_and_build_first_out_arrays")],
  TV, BASE_NOTE + "Same scenario families as P01, all pairs paths.", observe=["ContractionHierarchyQuery::get_arc_path", "get_node_path"])
P("P03", "Multi-source multi-target queries minimise offset plus distance plus offset",
  "With any sets of sources and targets carrying arbitrary offsets, including the same node several times, contraction hierarchy and customizable contraction hierarchy queries report the minimum of source offset plus distance plus target offset. The reported used source and used target are members of these sets that attain this minimum, or the invalid id if nothing is reachable.",
  ["inputs"], "all graphs, source/target multisets and offsets below the infinity weight",
  "Tests use at most a couple of sources with few offsets on one graph.",
  CHF + CCHF, [("adding sources and targets with offsets", "add_source / add_target"), ("used source/target", "get_used_source / get_used_target")],
  GEN, BASE_NOTE, observe=["get_distance", "get_used_source", "get_used_target"])
P("P04", "Query objects answer correctly after any history of reuse",
  "However often a contraction hierarchy or customizable contraction hierarchy query object has been reset, rebound, copied, pinned or run before, including more than 65536 resets, the answers of its next run are the correct ones for the sources and targets added since the last reset.",
  ["histories"], "all legal call sequences on query objects, in particular around wrap-around of internal clocks",
  "Tests never reset a query object tens of thousands of times and do not interleave pinned, plain and rebound use.",
  CHF + CCHF + ["include/routingkit/timestamp_flag.h", "include/routingkit/id_queue.h"], [("constant time clearing by time stamps", "TimestampFlags::reset_all"), ("query state machine", "ContractionHierarchyQuery::reset*, CustomizableContractionHierarchyQuery::reset*")],
  GEN, BASE_NOTE + "TimestampModel explores the wrap-around exhaustively for a small clock; the real 16 bit clock is driven across its wrap-around.",
  state=[("was_pushed time stamps, queues", "what the previous run left behind", "ContractionHierarchyQuery")])
P("P05", "Pinned one-to-many and many-to-one queries are exact",
  "After pinning any list of targets (or sources), with repetitions and in any order, and for every subsequent set of sources (or targets), the i-th reported value is exactly the value a separate query to the i-th pinned node would report: its distance and its used source (or target). This holds again for every new set of sources without pinning again.",
  ["inputs", "histories"], "all graphs, pin lists (empty, duplicated, longer than the node count), source sets, and re-run sequences",
  "Tests use one random pin list on one graph and do not repeat pins.",
  CHF + CCHF, [("pinning", "pin_targets / pin_sources"), ("restricted sweeps", "run_to_pinned_targets / run_to_pinned_sources")],
  TV, BASE_NOTE, observe=["get_distances_to_targets", "get_used_sources_to_targets", "get_distances_to_sources", "get_used_targets_to_sources"])
P("P06", "Extra weights equal the extra weights along the reported path",
  "For every associative way of linking extra weights, the extra weight a contraction hierarchy query reports is the result of linking the extra weights of the arcs of a shortest path, in path order. Precomputed and on-the-fly extra weights agree, for plain and for pinned queries.",
  ["inputs"], "all graphs, extra weight vectors of any type and associative link operations (also non-commutative ones)",
  "The test links integers on one graph; commutative sums hide ordering mistakes.",
  CHF, [("extra weights of shortcuts", "ContractionHierarchyExtraWeight::reset"), ("evaluation along the unpacked path", "get_extra_weight_distance(s_to_*)")],
  TV, BASE_NOTE + "Uses sequence concatenation of arc ids as the most general associative link, plus saturating sums.")
P("P07", "Saved contraction hierarchies load back identically; damaged files are rejected",
  "A contraction hierarchy written to a file, a stream or a callback and read back by any of the readers answers every query with correct distances and paths, like the original. A file with a wrong magic number or a missing end is rejected with an exception by every reader, and one whose size does not fit its header by every reader that is told the size. A hierarchy that can not be written completely (the disk is full, the directory does not exist, the stream or callback fails) is reported by an exception.",
  ["inputs", "fault_sequences"], "all hierarchies and all readers, all truncation points, extensions, magic number and header count changes",
  "Tests never load a damaged hierarchy and save only one.",
  CHF + ["include/routingkit/vector_io.h"], [("file format", "ContractionHierarchy::write / read"), ("size verification", "ContractionHierarchy::read with file size")],
  TV, BASE_NOTE + "Damage that keeps magic number and size is outside the property: there is no checksum.")
P("P08", "CCH distances equal shortest path distances",
  "For every graph, every node order used to build a customizable contraction hierarchy, with or without filtering of always-infinite arcs, and every weight vector a metric is customized with, the distance a query reports is exactly the shortest path distance under these weights.",
  ["inputs", "configurations"], "all graphs, orders, filter settings and weight vectors",
  "Tests customize a handful of weight vectors on one graph with one order.",
  CCHF, [("chordal completion", "compute_chordal_supergraph"), ("basic customization", "CustomizableContractionHierarchyMetric::customize"), ("elimination tree query", "CustomizableContractionHierarchyQuery::run")],
  MOD, BASE_NOTE + "Design model CCHModel: all 3-node (thorough: 4-node) graphs, all orders.", observe=["CustomizableContractionHierarchyQuery::get_distance"])
P("P09", "CCH paths are shortest paths of the input graph",
  "After a customizable contraction hierarchy query the arc path is a contiguous walk of input arcs whose length plus offsets is the reported distance and the node path is the sequence of nodes it visits; both are empty if there is no path.",
  ["inputs", "configurations"], "all graphs (parallel arcs, loops), orders and weight vectors",
  "Tests check paths on a single instance with one order.",
  CCHF, [("path unpacking by lower triangles", "unpack_path / get_arc_path")], TV, BASE_NOTE)
P("P10", "Parallel customization computes the same metric as sequential customization",
  "For every thread count and every interleaving of the threads, a parallel customization leaves a metric whose queries are exact for the attached weights, just as after sequential customization.",
  ["schedules", "inputs", "configurations"], "all thread interleavings, thread counts, graphs and weights",
  "A test samples the schedules of one run; lost updates and missing barriers need particular interleavings.",
  CCHF, [("level-wise parallel relaxation with atomic minimum", "CustomizableContractionHierarchyParallelization::customize")],
  MOD, BASE_NOTE + "ParCustModel explores all interleavings of two (thorough: three) threads and refutes the designs without atomic update and without barriers; the real code runs under operating system schedules with high contention.")
P("P11", "Partial customization equals full customization",
  "After any sequence of weight changes that were announced to a partial customization, in any order, repeatedly or superfluously, applying it to a customized metric makes queries answer exactly as after a full customization with the new weights.",
  ["histories", "inputs"], "all sequences of announced weight changes (increase, decrease, to and from infinity, to and from zero)",
  "Tests apply a few random updates; ties and infinities decide whether a triangle has to be re-evaluated.",
  CCHF + ["include/routingkit/id_set_queue.h"], [("queue driven re-evaluation of triangles", "CustomizableContractionHierarchyPartialCustomization::customize")],
  MOD, BASE_NOTE + "CCHModel with Changes explores all pairs of announced changes on all 3-node (thorough: 4-node) graphs.")
P("P12", "The CH extracted from a CCH metric is exact and leaves the metric usable",
  "A contraction hierarchy extracted from a metric by perfect customization reports exact distances and valid shortest paths for the metric's weights, whether or not the CCH was filtered, and the metric still answers exactly afterwards, including after later partial customizations. It consists of arcs of the CCH with their customized weights: it contains all that are shortest paths, and, if the CCH is not filtered, only these.",
  ["inputs", "histories"], "all graphs, orders, weights and later uses of the metric",
  "The test extracts one hierarchy and never uses the metric again.",
  CCHF, [("perfect witness search", "CustomizableContractionHierarchyMetric::build_contraction_hierarchy_using_perfect_witness_search")],
  MOD, BASE_NOTE)
P("P13", "Metrics and queries can be reset, rebound and copied without residue",
  "After attaching other weights or another customizable contraction hierarchy to a metric and customizing it, and after binding a query object to another metric, all answers are exact for the newly attached hierarchy and weights. Copies of a hierarchy behave like the original, also after the original is gone.",
  ["histories", "configurations"], "all sequences of reset, rebind, copy, customize and query operations over several hierarchies of equal and different size",
  "Tests reset a metric once between two fixed instances.",
  CCHF, [("metric reset", "CustomizableContractionHierarchyMetric::reset"), ("query reset", "CustomizableContractionHierarchyQuery::reset")], GEN, BASE_NOTE)
P("P14", "Dijkstra settles nodes in distance order with exact distances and paths",
  "Every step of a Dijkstra search settles a not yet settled node of minimum tentative distance and reports its exact distance from the sources, for constant and for first-in-first-out time-dependent weights; the search finishes exactly when all reachable nodes are settled. At any time the distances, reachability and paths of the nodes settled so far are correct, and the object can be reset and reused arbitrarily often.",
  ["inputs", "histories"], "all graphs, source sets with offsets, stop points, resets and FIFO weight functions",
  "Tests run complete searches on one graph; partial searches, resets, time dependence and clock wrap-around are not explored.",
  ["include/routingkit/dijkstra.h", "include/routingkit/id_queue.h", "include/routingkit/timestamp_flag.h"], [("label setting", "Dijkstra::settle"), ("reset", "Dijkstra::reset")], MOD,
  BASE_NOTE + "DijkstraModel explores all 3-node graphs.")
P("P15", "The id queue is an addressable priority queue for every operation history",
  "For every sequence of pushes, pops, peeks, key decreases and increases, membership and key look-ups and clears, the id queue contains exactly the ids pushed and not yet removed, each with its latest key, and peek and pop deliver an element of minimum key. Key updates report whether they changed the key.",
  ["histories"], "all histories of legal operations over all id universes and key assignments, including ties",
  "There is no test of this queue on its own; it is exercised by searches that never increase keys and rarely collide.",
  ["include/routingkit/id_queue.h"], [("k-ary heap with back pointers", "MinIDQueue::move_up_in_tree / move_down_in_tree")], MOD,
  BASE_NOTE + "HeapModel: the sift operations explored exhaustively for all small heaps. Code: TLC-generated and seeded histories.")
P("P16", "The id set queue is a set that pops its minimum",
  "For every sequence of pushes (also of ids already contained), pops, membership tests and clears, the id set queue contains exactly the ids pushed and not yet popped, every id once, and pop returns the smallest contained id, or the invalid id if it is empty.",
  ["histories"], "all histories over all universe sizes, in particular sizes around powers of the internal word size",
  "The test pushes one random set and pops it again.",
  ["include/routingkit/id_set_queue.h"], [("hierarchical bit set", "IDSetMinQueue::push / pop")], MOD, BASE_NOTE + "SetQueueModel: hierarchical bit set explored exhaustively with small words.")
P("P17", "Bit vectors behave like vectors of bits",
  "Every bit vector operation (construction, resize, set, reset, toggle, conditional and in-place logical operations, complement, comparison, population count, copy, move, swap, assignment) has exactly the effect of the same operation on a sequence of booleans, for every size and content. Bits beyond the size never influence a result.",
  ["histories", "inputs"], "all histories of operations over all sizes, in particular around multiples of 64 and 512",
  "Tests check a few sizes and operations in isolation; residue in the padding only shows through a later count or comparison.",
  ["src/bit_vector.cpp", "include/routingkit/bit_vector.h"], [("word-wise operations with masked padding", "BitVector")], TV, BASE_NOTE)
P("P18", "Id mappers translate between global and dense local ids both ways",
  "For every set of global ids, the id mappers number its members 0,1,2... in increasing order: to_local of a member is the number of smaller members, to_local of a non-member is invalid or the given default, is_global_id_mapped tells membership, and to_global inverts to_local.",
  ["inputs"], "all sets over all universes, in particular sizes around word and block boundaries",
  "Tests use random sets of fixed size.",
  ["src/id_mapper.cpp", "include/routingkit/id_mapper.h", "src/bit_select.cpp", "src/bit_select.h"], [("rank directory", "LocalIDMapper"), ("select", "IDMapper::to_global, bit_select")], TV, BASE_NOTE)
P("P19", "Sorting and permutation functions compute exactly what their names say",
  "For every vector and key function, each sorting function returns the same elements in non-decreasing order, the stable ones keep the order of equal elements, and the sort permutations (and inverse ones) describe such an order. Applying, inverting, chaining and recognising permutations satisfies the algebra of permutations, for copied and for moved vectors and for in-place variants.",
  ["inputs"], "all vectors, key ranges (few keys, many keys), permutations and element types",
  "Tests sort a few vectors; bucket and comparison sort are selected by the ratio of keys to elements.",
  ["include/routingkit/sort.h", "include/routingkit/permutation.h"], [("bucket sort or comparison sort", "sort.h"), ("permutation application", "permutation.h")], TV, BASE_NOTE)
P("P20", "Vector inversion, filters, arc look-up and path conversion are exact",
  "Inverting a sorted vector gives the first-out index of its values and inverting it back gives the vector; keeping and removing elements by a bit vector selects exactly those elements in order; extrema are extrema at their first position; arc look-up finds an arc between two nodes exactly if there is one; node and arc paths convert into each other; the lexicographic sort permutations sort by the first and then by the second key.",
  ["inputs"], "all vectors, filters, graphs and paths",
  "Tests cover one or two examples of each function, several have none.",
  ["include/routingkit/inverse_vector.h", "include/routingkit/filter.h", "include/routingkit/min_max.h", "include/routingkit/graph_util.h", "src/graph_util.cpp"],
  [("index construction", "invert_vector"), ("selection", "keep_element_of_vector_if, remove_element_from_vector_if"), ("look-up and sorting", "graph_util.cpp")], TV, BASE_NOTE)
P("P21", "Strongly connected components are the classes of mutual reachability",
  "For every directed graph, two nodes get the same component number exactly if each can reach the other, the component numbers are 0 to count-1, and the largest component is one with the most nodes.",
  ["inputs"], "all directed graphs including loops, parallel arcs and isolated nodes",
  "Tests use a few small fixed graphs.",
  ["src/strongly_connected_component.cpp", "include/routingkit/strongly_connected_component.h"], [("iterative depth first search", "compute_strongly_connected_components")], MOD,
  BASE_NOTE + "SccModel: the algorithm explored on all 3-node (thorough: 4-node) graphs with termination.")
P("P22", "Cuts, separators and nested dissection orders are valid",
  "For every undirected view of a graph: fragments contain every non-loop arc in both directions with correct back arcs, decomposition yields the connected components, a finished flow has the value of a minimum cut and its cuts attain it, inertial flow respects the balance, a derived separator separates the sides of the cut, and a separator decomposition is a tree over all nodes in which every arc connects nodes of an ancestor and a descendant. Every nested dissection order is a permutation.",
  ["inputs", "configurations"], "all graphs, node coordinates, balances, source/target sets and separator choices",
  "Tests run one or two grid graphs.",
  ["src/nested_dissection.cpp", "include/routingkit/nested_dissection.h"], [("blocking flow", "BlockingFlow::advance"), ("separator derivation", "derive_separator_from_cut"), ("recursive decomposition", "compute_separator_decomposition")], TV, BASE_NOTE)
P("P23", "Nearest neighbour and radius queries on geographic positions are exact",
  "For every set of positions on the earth and every query position and radius, the nearest neighbour query returns a position of minimum distance together with that distance, or the invalid id if no position lies within the radius, and the radius query returns exactly the positions within the radius, each once and with its distance. Answers may only differ within the rounding of single precision distances.",
  ["inputs"], "all sets of positions (clusters, duplicates, poles, date line, antipodes, empty), all query positions and radii",
  "The test compares one random cloud with a linear search.",
  ["src/geo_position_to_node.cpp", "include/routingkit/geo_position_to_node.h"], [("vantage point tree construction", "construct_tree"), ("search with triangle inequality pruning", "nearest_neighbor_recursion, find_all_nodes_recursion")], MOD,
  BASE_NOTE + "VPModel: every legal tree arrangement over a small metric space, all queries and radii. Code: point clouds up to 129 points, reference distances computed in double precision.", observe=["GeoPositionToNode::find_nearest_neighbor_within_radius", "find_all_nodes_within_radius"])
P("P24", "Geographic distances are great circle distances",
  "For all pairs of positions geo_dist is the great circle distance on the sphere up to rounding: it is symmetric, zero for equal positions, never negative or not a number, does not depend on a common shift of the longitudes (also across the date line and at the poles), is at most half the circumference and satisfies the triangle inequality.",
  ["inputs"], "all pairs and triples of valid positions",
  "The test checks a few fixed pairs.",
  ["include/routingkit/geo_dist.h"], [("haversine formula", "geo_dist")], TV, BASE_NOTE + "Thousandths of a degree; relative tolerance 5e-6.", observe=["geo_dist"])
P("P25", "The asynchronous reader delivers the stream unchanged under every schedule",
  "For every source, block size, sequence of reads and schedule of its two threads, the buffered asynchronous reader delivers exactly the next bytes of the stream, and the memory of a read stays valid until the next read. When the source ends, a read of more than what is left reports that; an exception of the source is rethrown to the reader; destroying or moving the reader at any time neither hangs nor loses data.",
  ["schedules", "histories"], "all interleavings of reader and worker, all chunkings of the source, all read sizes up to the block size, all points of destruction",
  "The test reads two streams once; interleavings and ring positions are sampled by chance.",
  ["src/buffered_asynchronous_reader.cpp", "src/buffered_asynchronous_reader.h"], [("ring buffer with a mirrored first block", "BufferedAsynchronousReader::Impl"), ("hand-over with lock and condition variables", "read, worker thread")], MOD,
  BASE_NOTE + "ReaderModel: all interleavings for small rings and streams, with liveness. Code: histories with small rings under address sanitizer and thread sanitizer.")
P("P26", "Saved data is loaded back identically and damaged files are rejected",
  "Vectors of any plain type, vectors of strings and bit vectors that were saved are loaded back identically, from files, streams and with any data source in between. Files of impossible length, missing files and files that can not be written completely are reported by an exception and never yield partial data; data sources read, rewind, measure and move files without losing or repeating bytes.",
  ["inputs", "histories", "faults"], "all vectors and bit vectors, all truncation points and extensions, write faults, all sequences of data source operations",
  "Tests never save to a failing device, truncate files or reuse data sources.",
  ["include/routingkit/vector_io.h", "src/vector_io.cpp", "src/file_data_source.cpp", "src/file_data_source.h", "include/routingkit/bit_vector.h", "src/bit_vector.cpp"], [("saving and loading", "save_vector, load_vector, save_bit_vector, load_bit_vector"), ("data sources", "FileDataSource")], TV,
  BASE_NOTE + "Write faults through /dev/full and missing directories.")
P("P27", "Protobuf messages are decoded exactly and malformed ones are rejected",
  "For every byte string, decoding reports exactly the fields a protobuf message with these bytes has, in order, with their ids and values (64 bit integers, doubles, floats, byte strings); zigzag values decode to the signed numbers they encode. A byte string that is no message is rejected by an exception after at most the fields before the error, and no byte outside the message is read.",
  ["inputs"], "all byte strings",
  "Tests decode a few well-formed messages.",
  ["src/protobuf.h", "src/protobuf.cpp"], [("variable length integers", "decode_varint_as_uint64_and_advance_first_parameter"), ("field decoding", "decode_protobuf_message_with_callbacks")], TV,
  BASE_NOTE + "All strings up to 2 bytes over interesting bytes, seeded and mutated messages, under address sanitizer with exact-size buffers.")
P("P28", "Tag maps answer look-ups like a dictionary after any history of rebuilds",
  "After building a tag map from any list of keys and values, looking up a key returns its value, looking up anything else returns null or the given default, and iteration delivers every key with its value once. Nothing of earlier contents remains after a rebuild or clear.",
  ["histories", "inputs"], "all key sets (colliding, empty and prefix strings), sizes and sequences of rebuilds",
  "The test builds two small maps.",
  ["include/routingkit/tag_map.h"], [("hash index with selective clearing", "TagMap::build, TagMap::operator[]")], TV, BASE_NOTE)
P("P29", "OSM PBF files are decoded completely, in order and safely",
  "For every OSM PBF file (any number and size of blocks, compressed or not, dense or plain nodes, any granularity and offsets, unknown blocks and fields) the unordered reader reports every node, way and relation with its id, position, node list, members and tags in file order, and the ordered reader reports all nodes, then all ways, then all relations; kinds without callback are skipped. A missing or corrupt file raises an exception after reporting at most elements before the corruption, without reading outside of the data and without hanging, and exceptions of callbacks reach the caller.",
  ["inputs", "faults", "schedules"], "all well-formed files, all corruptions of containers, blocks and elements, all selections of callbacks and points of interruption",
  "There is no test with OSM data.",
  ["src/osm_decoder.cpp", "include/routingkit/osm_decoder.h", "src/osm_simple.cpp", "src/buffered_asynchronous_reader.cpp", "src/protobuf.h"], [("block reading and decompression", "OsmPBFDecompressor"), ("element decoding", "internal_read_osm_pbf"), ("ordered reading", "ordered_read_osm_pbf")], MOD,
  BASE_NOTE + "PassModel: worker and main thread of the ordered reader over all small files, with termination. Code: seeded files through an independent encoder, 30 kinds of corruption, blocks near the size limit.")
P("P30", "The OSM routing graph represents exactly the routing ways",
  "From every OSM file the id mapping selects exactly the ways the callback accepts that have at least two nodes, their nodes as modelling nodes, and as routing nodes their end points, nodes occurring at least twice and nodes the callback demands (or all modelling nodes if asked for). The routing graph has exactly one arc per open direction between consecutive routing nodes of a way, sorted by tail and head, with way id, direction flag, length, coordinates and, if asked for, the modelling nodes in between in the order of travel.",
  ["inputs", "configurations"], "all road networks (loops, repeated nodes, missing nodes, ids at block boundaries), element orders, callbacks and geometry options",
  "There is no test with OSM data.",
  ["src/osm_graph_builder.cpp", "include/routingkit/osm_graph_builder.h"], [("classification of ids", "load_osm_id_mapping_from_pbf"), ("arc construction", "load_osm_routing_graph_from_pbf")], MOD,
  BASE_NOTE + "OsmModel: the single pass classification explored on all small sequences of ways. Code: TLC-generated and seeded networks up to 300 nodes.")
P("P31", "Turn restrictions forbid exactly the turns they describe",
  "A relation tagged as turn restriction with from, via and to members yields restrictions with these ways, node, category and direction; relations with ambiguous or non-node via members, or mandatory ones with several from or to ways, are dropped. In the routing graph a prohibitive restriction forbids the turn from the arc of the from-way to the arc of the to-way at the via node, a mandatory one forbids all other turns from that arc; a missing via node is the only crossing of the ways; among several candidate arcs the direction decides. The list of forbidden turns is sorted, without duplicates, and contains nothing else.",
  ["inputs"], "all networks and sets of restriction relations, with and without via node, all categories and directions",
  "There is no test with OSM data.",
  ["src/osm_graph_builder.cpp", "src/osm_profile.cpp", "include/routingkit/osm_graph_builder.h"], [("decoding relations", "decode_osm_car_turn_restrictions"), ("resolving restrictions to arcs", "load_osm_routing_graph_from_pbf")], TV,
  BASE_NOTE + "Angles close to a direction limit and mandatory restrictions along one two-way road without via node are left open.")
P("P32", "OSM tags decide access, direction, speed and comfort as documented",
  "For every combination of tags, the car, bicycle and pedestrian profiles decide whether a way is used, in which directions, with which speed (the smallest of the given maxspeed values in its unit, the default of the road class otherwise, never zero), comfort level and name. The simple loaders return the graphs these decisions imply: with travel times in milliseconds for cars, comfort levels for bicycles, and forbidden turns.",
  ["inputs"], "all combinations of the tag keys and values the profiles know, unknown values, maxspeed expressions, and all networks",
  "There is no test of the profiles.",
  ["src/osm_profile.cpp", "src/osm_simple.cpp", "include/routingkit/osm_profile.h", "include/routingkit/osm_simple.h"], [("profile decisions", "is_osm_way_used_by_*, get_osm_*_direction_category, get_osm_way_speed"), ("simple loaders", "simple_load_osm_*_routing_graph_from_pbf")], TV,
  BASE_NOTE + "All road classes with every single further tag, seeded combinations.")
P("P33", "Concurrent queries on one shared hierarchy are independent",
  "Any number of threads, each with its own query object, may query the same contraction hierarchy or the same customized metric at the same time (point to point, several sources and targets, or pinned one-to-many and many-to-one), and every thread obtains the correct distances, used endpoints and paths. Likewise, independent hierarchies may be built and different metrics of one CCH customized or turned into hierarchies at the same time.",
  ["schedules", "inputs"], "all interleavings of queries, constructions and customizations on separate objects from several threads",
  "No test uses more than one thread for queries.",
  CHF + CCHF, [("queries only read the shared object", "ContractionHierarchyQuery::run, CustomizableContractionHierarchyQuery::run")], TV,
  BASE_NOTE + "Schedules are those of the operating system; part of the scenarios run in a thread sanitizer build.")
P("P34", "The conversion tools keep the data",
  "encode_vector and decode_vector are inverse for all element types, compare_vector and generate_constant_vector report and write what they say, the DIMACS importers and the exporter translate exactly the nodes, arcs, weights and coordinates of their input (sorted by tail), graph_to_dot and graph_to_svg draw exactly the arcs (the latter scaled to a square, north up, also if all nodes lie on a line), and randomly_permute_nodes yields an isomorphic graph with the arc weights carried along. Missing, malformed or inconsistent input is reported as an error, never leads to a crash, and leaves the output files untouched.",
  ["inputs", "configurations"], "all vectors of all types, all DIMACS files (malformed ones included), all graphs and command lines",
  "There is no test of the command line tools.",
  ["src/encode_vector.cpp", "src/decode_vector.cpp", "src/compare_vector.cpp", "src/generate_constant_vector.cpp", "src/convert_road_dimacs_graph.cpp", "src/convert_road_dimacs_coordinates.cpp", "src/export_road_dimacs_graph.cpp", "src/graph_to_dot.cpp", "src/graph_to_svg.cpp", "src/randomly_permute_nodes.cpp", "src/verify.h"], [("reading and checking of files and arguments", "main of each tool")], TV,
  BASE_NOTE + "The tools are linked from the working tree with address sanitizer and run in a scratch directory; every run with its input and output files is one transition of Tools.tla.")
P("P35", "The routing tools answer like the library",
  "run_dijkstra, compute_contraction_hierarchy with run_contraction_hierarchy_query, and show_path produce exactly the shortest path lengths and shortest paths of the graph they are given (whenever these lie below inf_weight); the query generators produce the requested number of queries with valid nodes, times and, for Dijkstra rank queries, the node settled as number two to the power of the stated rank with its distance; compute_geographic_distance_weights writes the great circle lengths, compute_nested_dissection_order a permutation. Missing, empty, truncated or mutually inconsistent graph, weight, coordinate and query files (queries for nodes that do not exist, too few coordinates, queries on an empty graph) are reported as an error, never lead to a crash, and leave the output files untouched.",
  ["inputs", "configurations"], "all graphs, query sets and command lines",
  "There is no test of the command line tools.",
  ["src/run_dijkstra.cpp", "src/compute_contraction_hierarchy.cpp", "src/run_contraction_hierarchy_query.cpp", "src/examine_ch.cpp", "src/show_path.cpp", "src/generate_test_queries.cpp", "src/generate_random_node_list.cpp", "src/generate_random_source_times.cpp", "src/generate_dijkstra_rank_test_queries.cpp", "src/compute_geographic_distance_weights.cpp", "src/compute_nested_dissection_order.cpp", "src/verify.h"], [("reading and checking of files and arguments", "main of each tool"), ("query loops", "run_dijkstra, run_contraction_hierarchy_query, generate_dijkstra_rank_test_queries")], TV,
  BASE_NOTE + "As P34, on graphs up to a few dozen nodes whose distances the specification computes itself.")
P("P36", "osm_extract writes the car routing graph of the file",
  "For every readable OSM PBF file osm_extract writes exactly the car routing graph as adjacency array: the routing nodes with their coordinates, one arc per open direction between consecutive routing nodes with its length in metres and its travel time in milliseconds at the speed of its way, and, in the long form, the way of each arc, speed and name of each routing way and the sets of OSM nodes and ways used, also if there is no arc at all. Unreadable files are reported as an error and no output is written.",
  ["inputs", "faults"], "all OSM files (empty networks, very long arcs, corrupt files), both forms of the command line",
  "There is no test of osm_extract.",
  ["src/osm_extract.cpp", "src/osm_graph_builder.cpp", "src/osm_profile.cpp", "src/osm_decoder.cpp"], [("extraction and saving", "main of osm_extract")], TV,
  BASE_NOTE + "The tool is linked from the working tree with address sanitizer and run in a scratch directory.")
P("P37", "Hierarchies describe their graph and the checker tells sound from broken ones",
  "Every contraction hierarchy that is built, extracted from a customized metric, saved and loaded or copied consists of mutually inverse orders and, per direction, of arcs sorted by tail and head that all lead upward; each arc is either an input arc with its end points and weight or the concatenation of the two lower arcs it names, with the sum of their weights. check_contraction_hierarchy_for_errors accepts all of these, and reports every hierarchy with orders that are no permutations, wrong vector sizes, downward arcs, references out of range or shortcut weights that do not add up by an exception, without reading outside of its data.",
  ["inputs", "faults"], "all graphs, orders and ways of construction, all edits of any field of a hierarchy",
  "Tests call the checker on one sound hierarchy only.",
  CHF + CCHF, [("arcs, unpacking information and orders", "ContractionHierarchy::forward, backward, rank, order"), ("checking", "check_contraction_hierarchy_for_errors")], TV,
  BASE_NOTE + "The complete contents of the hierarchy are recorded and compared with ChShape and ChConsistent of Routing.tla.")
P("P38", "CCH arcs are the elimination of the graph, metrics its lower distances",
  "For every graph and node order, a customizable contraction hierarchy has the given order and its inverse as ranks, exactly one arc (from the lower to the higher rank) for every pair of nodes that is connected by a path whose inner nodes all come before both of them, ignoring directions, and, if always infinite arcs are filtered, for exactly those pairs where a directed path of this kind exists in one of the two directions; cch_arc_count, node_count and input_arc_count say so. The elimination tree parent of a node is its lowest upper neighbour before filtering, so that all upper neighbours are ancestors. Every input arc is assigned to the arc of its end points with its direction, loops to none; copies have the same contents. After sequential, parallel or partial customization or the extraction of a hierarchy, the metric holds for each arc and direction the length of a shortest path through lower nodes, inf_weight if there is none.",
  ["inputs", "histories"], "all graphs, orders, weights and sequences of weight changes and customizations of all kinds",
  "Tests compare query results on a few fixed graphs; superfluous, missing or wrongly weighted arcs are not looked at.",
  CCHF, [("elimination, filter, arc assignment", "CustomizableContractionHierarchy constructor"), ("customization", "CustomizableContractionHierarchyMetric::customize, CustomizableContractionHierarchyParallelization::customize, CustomizableContractionHierarchyPartialCustomization::customize")], TV,
  BASE_NOTE + "The contents are recorded and compared with CchDumpOK and MetricDumpOK of Routing.tla, which eliminate the nodes one by one.")
