from registry import prop, TRUST

KBTRUST = TRUST + "; kognac (absent here) is replaced by the stand-in in /verif/kognac, which the check trusts to parse, hash and merge correctly"

prop("P01", "A loaded knowledge base answers exactly the triples it was given",
     "For every set of input triples (with duplicates, any identifiers up to 40 bits, any skew) and every loader configuration (number of permutations, aggregated indices, "
     "skipped tables, flat tree, storage strategies, number of threads and partitions, sort-buffer sizes), loading terminates and afterwards a scan of each of the six "
     "permutations, and every lookup with the first one, two or three positions bound, returns exactly the matching distinct triples in the order of that permutation, each once.",
     ["inputs", "configurations"], "every triple set, loader configuration and bound prefix",
     "The existing tests never load a database; which table encoding, tree layout and merge path is taken depends on the data distribution and the configuration, so errors hide in combinations.",
     ["src/trident/kb/loader.cpp", "src/trident/kb/permsorter.cpp", "src/trident/tree/", "src/trident/binarytables/", "src/trident/files/", "src/trident/kb/inserter.cpp", "src/trident/kb/querier.cpp"],
     [("permutation sort and merge", "src/trident/kb/permsorter.cpp"), ("loading", "src/trident/kb/loader.cpp"), ("per-table choice of encoding", "src/trident/binarytables/storagestrat.cpp"), ("B+tree / flat tree of terms", "src/trident/tree/"), ("lookup by permutation, reversed and aggregated tables", "src/trident/kb/querier.cpp")],
     facets=[("kb", "load")],
     rule="random graphs (stars, cliques, long tables, huge and dense ids, duplicates) x random configurations; non-trivial = more than one distinct triple",
     technique="property-based testing of load + scan/lookup against a set-of-triples model (ASan)",
     note="exploration of generated databases; trusts " + KBTRUST,
     observe=["Querier::getIterator over all permutations and prefixes"])

prop("P02", "Iterators over a knowledge base honour their protocol",
     "Every iterator a database hands out (scans, lookups, reordered, reversed and aggregated ones, lists of terms) enumerates, under every legal sequence of hasNext/next/moveto/"
     "mark/reset/gotoKey/ignoreSecondColumn calls, exactly the rows the plain enumeration yields from that position, and its counts are exact.",
     ["inputs", "histories", "configurations"], "every database, configuration, pattern and legal sequence of iterator calls",
     "Skipping, resetting and projecting take different code in each table encoding; joins rely on them, tests do not touch them.",
     ["src/trident/iterators/", "src/trident/binarytables/", "src/trident/kb/querier.cpp"],
     [("skip/mark/reset of each table encoding", "src/trident/binarytables/"), ("scan, reorder, aggregate iterators", "src/trident/iterators/")],
     facets=[("kb", "iter")],
     rule="60 random protocol runs per generated database; non-trivial = a run with a skip, reset or projection over more than one row",
     technique="stateful property-based testing against a sorted-vector model (ASan)",
     note="exploration of generated call sequences; trusts " + KBTRUST,
     observe=["PairItr interface"])

prop("P03", "Counts, existence tests and graph primitives agree with the triples",
     "For every loaded database and configuration: the exact and (where exact by contract) estimated cardinality of every pattern, its emptiness and existence tests, the number of terms per "
     "position, and the degree/edge/group primitives (edges of a key, positions of an edge or group, patterns with repeated variables) return the numbers and rows that counting the triples gives, "
     "independently of what was asked before and of other databases open in the same process.",
     ["inputs", "histories", "configurations"], "every database, configuration and pattern, asked in any order",
     "The numbers come from table headers, memo tables and shortcuts per permutation that differ per configuration; no test asks for any of them.",
     ["src/trident/kb/querier.cpp", "src/trident/kb/kb.cpp", "src/trident/iterators/", "src/trident/binarytables/"],
     [("counts per pattern and the memo of counts", "src/trident/kb/querier.cpp"), ("graph primitives", "src/trident/kb/querier.cpp"), ("repeated-variable and constant-key iterators", "src/trident/iterators/")],
     facets=[("kb", "card"), ("kb", "edges")],
     rule="random databases x random patterns; non-trivial = more than one distinct triple",
     technique="property-based testing against counting in a set-of-triples model (ASan)",
     note="exploration of generated databases and patterns; trusts " + KBTRUST,
     observe=["Querier cardinality/exists/edge/group calls"])

prop("P04", "The dictionary is a bijection between terms and identifiers",
     "For every set of input terms (any bytes, lengths, shared prefixes, repeats) and dictionary configuration (partitions, sampling, sharing of relation ids), after loading each term has "
     "exactly one identifier, each identifier gives back exactly its term, absent terms and identifiers are reported absent, and the loaded triples are the input triples under that mapping.",
     ["inputs", "configurations"], "every set of terms and dictionary configuration",
     "Which path assigns an id (popular terms by sampling, per-partition merge, long strings crossing blocks) depends on the data; no test loads text.",
     ["src/trident/kb/dictmgmt.cpp", "src/trident/kb/loader.cpp", "src/trident/tree/stringbuffer.cpp", "src/trident/tree/"],
     [("lookups both ways", "src/trident/kb/dictmgmt.cpp"), ("string storage", "src/trident/tree/stringbuffer.cpp"), ("id assignment and storage", "src/trident/kb/loader.cpp")],
     facets=[("kb", "dict")],
     rule="random term sets (IRIs, literals, blank nodes, non-ASCII, long and prefix-sharing strings) loaded from N-Triples; non-trivial = more than one distinct triple",
     technique="property-based round-trip testing of load + dictionary lookups (ASan)",
     note="exploration of generated term sets; trusts " + KBTRUST,
     observe=["DictMgmt lookups"])

prop("P05", "Updates behave as set operations on the triples",
     "After any history of additions, deletions (also of absent triples and unknown terms) and merges of updates, reopening the database shows exactly the triples that the same operations on a set leave: "
     "in scans of every permutation, in lookups, in counts and existence tests and in the lists of terms; every term ever present keeps its identifier and every term of a present triple can be looked up both ways.",
     ["histories", "inputs"], "every history of additions, deletions, merges and reopenings",
     "Updates are layered as differential indices over an immutable base; the order, overlap and the size of the updates decide which representation and which combination of iterators is used; no test runs an update.",
     ["src/trident/kb/updater.cpp", "src/trident/kb/diffindex1.cpp", "src/trident/kb/diffindex3.cpp", "src/trident/kb/kb.cpp", "src/trident/kb/querier.cpp", "src/trident/iterators/", "src/trident/kb/dictmgmt.cpp"],
     [("translation and filtering of an update", "src/trident/kb/updater.cpp"), ("differential indices", "src/trident/kb/diffindex3.cpp"), ("merging of updates", "src/trident/kb/kb.cpp"), ("combination of base and updates", "src/trident/kb/querier.cpp")],
     facets=[("kb", "update")],
     rule="random bases of up to 50 triples, 1-4 random updates overlapping them, merges and reopenings in between; non-trivial = an update changed the set of triples",
     technique="stateful property-based testing of update histories against a set model (ASan)",
     note="exploration of generated histories over databases with six permutations; trusts " + KBTRUST,
     observe=["Querier over the reopened database", "DictMgmt"])

prop("P06", "String buffer and B+ trees behave as sequences and maps, also reopened",
     "For every sequence of appended strings, the string buffer returns at each recorded position exactly the string written there and compares it with any other string as their bytes "
     "compare, while it is being written and after it is reopened, wherever blocks end and whatever was evicted. For every sequence of insertions (ascending, descending or arbitrary keys, "
     "any node size and any number of cached nodes), the B+ trees (string to id, id to position, id to table coordinates) answer every lookup, of present and absent keys, as a map would, "
     "insertIfNotExists reports exactly whether the key was new, and the reopened tree answers the same lookups and iterates all entries once, in key order.",
     ["inputs", "histories", "configurations"], "every sequence of operations, key distribution, node size and cache size",
     "Node splits, evictions, compact encodings of runs of keys and block boundaries only matter beyond thousands of terms, far from any unit test; the existing tests do not touch them.",
     ["src/trident/tree/"],
     [("nodes: keys, splits, compact runs", "src/trident/tree/node.cpp"), ("leaves and their values", "src/trident/tree/leaf.cpp"), ("intermediate nodes", "src/trident/tree/intermediatenode.cpp"),
      ("string buffer: blocks, prefixes, cache", "src/trident/tree/stringbuffer.cpp"), ("node files", "src/trident/tree/nodemanager.cpp"), ("cache of nodes", "src/trident/tree/cache.cpp")],
     facets=[("store", "sbuf"), ("store", "texttree"), ("store", "idtree"), ("store", "coordtree")],
     rule="random operation sequences with small nodes and caches and, for the string buffer, several blocks with strings ending at block boundaries; non-trivial = more than 8 entries",
     technique="model-based property-based testing against std::map / a vector of strings (ASan)",
     note="exploration of generated histories; trusts " + KBTRUST,
     observe=["StringBuffer::get/cmp", "Root::get/put/append/insertIfNotExists/itr"])

prop("P07", "SPARQL queries return exactly the solutions of their patterns and filters",
     "For every database and every query of basic graph patterns, unions, VALUES, filters, projection, DISTINCT, ORDER BY, LIMIT and OFFSET, the whole query pipeline (parser, semantic analysis, query optimizer, code generation, "
     "operators and result printer) returns exactly the bag of solutions of the SPARQL algebra, in the required order, whatever plan the cost estimates select; printed text and JSON carry the same rows.",
     ["inputs", "configurations"], "every database, query and cost estimate (hence every plan)",
     "The optimizer picks among many plans by cost; a wrong rewrite, join order or dropped variable shows only for particular combinations of query shape, data and estimates.",
     ["rdf3x/src/cts/SPARQLParser.cpp", "rdf3x/src/cts/SemanticAnalysis.cpp", "rdf3x/src/cts/QueryGraph.cpp", "rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/cts/CodeGen.cpp", "rdf3x/src/rts/ResultsPrinter.cpp", "rdf3x/src/rts/Selection.cpp", "rdf3x/src/rts/MergeJoin.cpp", "rdf3x/src/rts/HashJoin.cpp"],
     [("plan generation", "rdf3x/src/cts/PlanGen.cpp"), ("query graph", "rdf3x/src/cts/QueryGraph.cpp"), ("code generation", "rdf3x/src/cts/CodeGen.cpp")],
     facets=[("sparql", "basic", 1.0), ("sparql", "unions", 1.0)],
     rule="random databases (up to 60 triples), random queries and random cost estimates; non-trivial = the query has answers and at least two parts or a filter",
     technique="differential PBT of the query pipeline against a naive evaluation of the SPARQL algebra",
     note="exploration; trusts " + TRUST,
     observe=["PlanGen", "QueryGraph", "CodeGen", "SPARQLParser", "SemanticAnalysis", "ResultsPrinter"])

prop("P08", "OPTIONAL, MINUS, subselects and aggregates follow the SPARQL algebra",
     "For every database and query, OPTIONAL keeps every row of the part it extends exactly once per match (or once, padded, without a match), MINUS removes exactly the compatible rows, subselects behave as their own query, "
     "and GROUP BY with COUNT / COUNT DISTINCT gives one row per group with the counts of its bound values, however these are combined with joins, unions, VALUES and filters.",
     ["inputs", "configurations"], "every database, query and cost estimate (hence every plan)",
     "Unbound values, multiplicities and variables that only one part mentions interact across operators; each operator is right alone while the combination loses or invents rows.",
     ["rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/cts/SemanticAnalysis.cpp", "rdf3x/src/cts/CodeGen.cpp", "rdf3x/src/rts/Minus.cpp", "rdf3x/src/rts/HashJoin.cpp", "rdf3x/src/rts/NestedLoopJoin.cpp", "rdf3x/src/rts/MergeJoin.cpp", "rdf3x/src/rts/DuplLimit.cpp", "rdf3x/src/rts/AggrFunctions.cpp", "src/trident/sparql/aggrhandler.cpp", "rdf3x/src/rts/CartProd.cpp"],
     [("plan generation", "rdf3x/src/cts/PlanGen.cpp"), ("aggregates", "src/trident/sparql/aggrhandler.cpp"), ("nested loop join", "rdf3x/src/rts/NestedLoopJoin.cpp")],
     facets=[("sparql", "optionals", 1.0), ("sparql", "nested", 1.0), ("sparql", "aggregates", 1.0)],
     rule="random databases, queries and cost estimates; non-trivial = the query has answers and at least two parts or a filter (aggregates: several groups, one with several rows)",
     technique="differential PBT of the query pipeline against a naive evaluation of the SPARQL algebra",
     note="exploration; trusts " + TRUST,
     observe=["PlanGen", "CodeGen", "Minus", "HashJoin", "NestedLoopJoin", "AggrFunctions"])

prop("P09", "Queries over a loaded knowledge base return exactly what its triples entail",
     "For every RDF text loaded into a knowledge base, every loader configuration (with or without aggregated or skipped tables, with or without a stored sample and selectivity sampling) and every query, parsing, planning "
     "with the statistics of the database, and executing over its real indices and dictionary returns exactly the solutions that a naive evaluation over the input triples gives, as terms.",
     ["inputs", "configurations"], "every input text, loader configuration and query",
     "Only the combination of loader, dictionary, statistics, index scans with skip hints and aggregated scans, planner and operators answers a query; each part is exercised differently by the plan that the statistics of the data select.",
     ["src/layers/TridentLayer.cpp", "src/trident/model/table.cpp", "src/trident/kb/querier.cpp", "rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/rts/IndexScan.cpp"],
     [("database layer", "src/layers/TridentLayer.cpp"), ("index scans", "rdf3x/src/rts/IndexScan.cpp"), ("statistics", "src/trident/model/table.cpp")],
     facets=[("kbquery", "kbquery", 1.0)],
     rule="random N-Triples documents loaded with random configurations, several queries each; non-trivial = the database has several triples and some query has answers",
     technique="end-to-end differential PBT of load + query against a naive evaluation of the SPARQL algebra (ASan)",
     note="exploration; trusts " + KBTRUST,
     observe=["Loader", "TridentLayer", "PlanGen", "CodeGen", "ResultsPrinter"])

prop("P11", "Pair iterators and the cache index behave as their sorted pair set",
     "An iterator over an in-memory sorted list of pairs, with or without constraints, and the iterator that subtracts a removed set "
     "from a base iterator enumerate exactly the expected pairs in sorted order, also after skipping forward, marking/resetting and "
     "when only the first column is wanted, and they report exact cardinalities and counts. The index of cached key ranges keeps, for "
     "every key and whatever is stored later, every stored range mapped to exactly its own pairs, with the ranges in order.",
     ["inputs", "histories"], "every sorted pair list, removed set, constraint pair and protocol-conforming sequence of iterator calls; every history of stored ranges",
     "No existing test touches these classes; the behaviour depends on the data (gaps, duplicates in the first column, absent constraints) and on the order of the calls.",
     ["src/trident/iterators/arrayitr.cpp", "src/trident/iterators/rmitr.cpp", "src/trident/kb/cacheidx.cpp"],
     [("binary search to the constraint, galloping moveto", "src/trident/iterators/arrayitr.cpp"), ("merge against the removed pairs", "src/trident/iterators/rmitr.cpp"), ("interval merging and subtraction", "src/trident/kb/cacheidx.cpp")],
     facets=[("lowlevel", "arrayitr"), ("lowlevel", "rmitr"), ("lowlevel", "cacheidx")],
     rule="random pair sets (small dense domains, occasional huge values), random constraint / call sequences; non-trivial = more than one pair and a constraint, skip, reset or column projection was exercised (cacheidx: at least one store merged into an existing key)",
     technique="stateful property-based testing against a sorted-vector model (ASan)",
     note="exploration over generated sequences; trusts " + TRUST,
     observe=["hasNext/next/getValue/getCount/getCardinality", "CacheIdx::getIndices"])

prop("P12", "Configuration stores round-trip every value and default predictably",
     "Every setting written to a configuration or property map is read back unchanged with its type, whatever the order of reads and (over)writes "
     "and whatever the other settings; a setting never written keeps its default, and reading one without a default is an error.",
     ["inputs", "histories"], "every history of typed writes and reads of settings",
     "No test reads a configuration back; a failure needs a particular sequence of sets on particular keys.",
     ["src/trident/kb/kbconfig.cpp", "include/trident/utils/propertymap.h"],
     [("typed setters/getters over the property map", "src/trident/kb/kbconfig.cpp")],
     facets=[("lowlevel", "config")],
     rule="random write/read/copy histories over all keys; non-trivial = at least one key was overwritten",
     technique="stateful property-based testing against a std::map model (ASan)",
     note="exploration; trusts " + TRUST)

prop("P13", "Circular convolution and correlation equal their definitions",
     "For every vector length and content, the FFT round-trips its input, and circular convolution and correlation, in single and double precision, "
     "equal the direct O(n^2) sums up to rounding error.",
     ["inputs"], "all lengths (powers of two and not) and all real vectors within rounding error",
     "No existing test calls the transforms; wrong results show only for particular lengths or element types.",
     ["src/trident/utils/fft.cpp", "include/trident/utils/fft.h"],
     [("discrete Fourier transforms", "src/trident/utils/fft.cpp")],
     facets=[("lowlevel", "conv"), ("lowlevel", "fourier")],
     rule="random lengths 1..300 (powers of two over-represented) and values; non-trivial = length > 1 and not all zeros",
     technique="property-based differential testing against the direct definition",
     note="exploration; trusts " + TRUST)

prop("P15", "The graph views over a knowledge base are the graph of its triples",
     "For every knowledge base loaded as a graph, the SNAP views (src/snap) show exactly the nodes, edges, degrees and neighbours of its triples, so that every analytic over a view equals the same analytic over the graph itself.",
     ["inputs", "configurations"], "every graph input and graph configuration",
     "No test loads a graph; the views read raw table files through their own decoders.",
     ["src/snap/", "src/trident/kb/loader.cpp"],
     [("views", "src/snap/"), ("graph input", "src/trident/kb/loader.cpp")],
     facets=[],
     rule="", technique="", note="", observe=["Trident_UTNGraph", "Trident_TNGraph"],
     reason="no input can be loaded as a graph at this commit (graph input is sorted into the SOP directory while createIndices starts from the empty SPO one, so loading fails before any view exists); "
            "there is no behaviour to search until that is redesigned (DESIGN.md)")

prop("P16", "SNAP graphs hold exactly what the operations put into them",
     "After any sequence of additions and deletions of nodes and edges (and defragmentation, saving and reloading, copying, mutual conversion "
     "into sparse/dense attribute stores), an undirected, directed, multi-, bipartite or network graph reports exactly the expected nodes, edges, neighbours, "
     "degrees and counts through every access path (by id, by node and edge iterator, by membership test), and every attribute has the value "
     "last assigned to that node or edge, or the default after deletion and re-creation.",
     ["histories", "inputs"], "every history of updates on every graph class",
     "The repository's only SNAP tests touch fixed small graphs; failures need particular interleavings of deletions, id reuse, defragmentation and parallel edges.",
     ["snap/snap-core/graph.cpp", "snap/snap-core/graph.h", "snap/snap-core/network.cpp", "snap/snap-core/network.h", "snap/snap-core/attr.cpp", "snap/glib-core/ds.h", "snap/glib-core/hash.h"],
     [("sorted neighbour vectors and edge tables", "snap/snap-core/graph.cpp"), ("attribute vectors aligned with the hash table slots", "snap/snap-core/network.cpp"), ("sparse attributes", "snap/snap-core/attr.cpp")],
     facets=[("snap_graph", "graph"), ("snap_graph", "bipartite"), ("snap_graph", "netattr"), ("snap_graph", "sattr")],
     rule="random operation histories (5-80 operations on few ids so that they collide; negative and rejected operations included); non-trivial = the history deleted a node or edge that existed (graph, bipartite) or an attribute / owner (netattr, sattr)",
     technique="stateful property-based testing of every graph class against a set/multiset model (ASan)",
     note="exploration of generated histories; trusts " + TRUST,
     observe=["node and edge iterators", "IsNode/IsEdge/GetDeg", "Save/Load"])

prop("P17", "Traversal, distances and components equal their graph-theoretic definition",
     "On every directed, undirected or multigraph, breadth-first trees, shortest distances, eccentricities, diameters, neighbourhoods and depth-first orders agree with the definition of reachability and distance, "
     "and the weak, strong and biconnected components, articulation points, bridges and the largest components partition the graph exactly as defined.",
     ["inputs", "schedules"], "every graph, start node, direction and number of threads",
     "Tests check a handful of fixed graphs; errors appear only for particular shapes (several components, self loops, multi-edges, isolated nodes).",
     ["snap/snap-core/bfsdfs.h", "snap/snap-core/cncom.h", "snap/snap-core/cncom.cpp"],
     [("BFS with direction-optimised variant", "snap/snap-core/bfsdfs.h"), ("DFS visitors for strong and biconnected components", "snap/snap-core/cncom.h")],
     facets=[("snap_algo", "traversal"), ("snap_algo", "components")],
     rule="random graphs of 1-60 nodes of mixed density and shape; non-trivial = at least one edge between different nodes and more than two nodes",
     technique="property-based differential testing against brute-force reachability and distance computations (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap traversal and component functions"])

prop("P18", "Degree, triad, clustering and core measures equal their definition",
     "On every undirected, directed and multigraph the degree distributions, edge counts, in-place transformations (self edges, undirecting, node deletion), tree tests, open and closed triads, "
     "clustering coefficients, triangle counts, common neighbours, structural constraint and k-cores equal what counting over the edge set gives.",
     ["inputs", "schedules"], "every graph, including self loops, parallel edges, isolated nodes and arbitrary node ids",
     "No test covers these; several optimised counters (sorted merges, degree-ordered triangle counting, parallel loops) have to agree with the plain definition for every shape of graph.",
     ["snap/snap-core/alg.h", "snap/snap-core/triad.h", "snap/snap-core/triad.cpp", "snap/snap-core/kcore.h"],
     [("merging of sorted neighbour vectors", "snap/snap-core/triad.h"), ("core decomposition by deletion", "snap/snap-core/kcore.h"), ("degree counts and transformations", "snap/snap-core/alg.h")],
     facets=[("snap_struct", "degree"), ("snap_struct", "triads"), ("snap_struct", "cores")],
     rule="random graphs of 1-40 nodes of mixed shape; non-trivial = at least 3 nodes and 2 edges, for triads also a triangle, for cores a 2-core",
     technique="property-based differential testing against brute-force counting (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap functions of alg.h, triad.h, kcore.h"])

prop("P19", "Centrality and ranking measures equal their definition",
     "Farness, closeness, eccentricity, node and edge betweenness (weighted and unweighted), degree, group and eigenvector centrality, PageRank (sequential, parallel, weighted) and hubs/authorities "
     "equal the defining sums over shortest paths or the defining iteration, every rank distribution sums to one, and converged ranks are within the requested tolerance of the fixpoint; the parallel variants equal the sequential ones.",
     ["inputs", "schedules"], "every graph, every positive edge weighting, every number of iterations and threads",
     "Floating-point results over a handful of fixed graphs do not show errors that need parallel edges, sinks, several components or unequal weights.",
     ["snap/snap-core/centr.h", "snap/snap-core/centr.cpp"],
     [("Brandes accumulation", "snap/snap-core/centr.h"), ("power iterations and their parallel variants", "snap/snap-core/centr.h"), ("weighted variants and group measures", "snap/snap-core/centr.cpp")],
     facets=[("snap_centr", "rank"), ("snap_centr", "between")],
     rule="random graphs of 1-40 nodes (1-20 for betweenness), random positive integer weights and edge ids; non-trivial = at least 3 nodes and 2 edges",
     technique="property-based differential testing against brute-force path counting and dense iterations (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap functions of centr.h"])
prop("P20", "Subgraphs, conversions and egonets are exactly the induced parts",
     "Extracting a subgraph (by nodes, edges, edge data, at random), converting between graph kinds (with or without renumbering) and taking an egonet keep exactly the nodes asked for, exactly the edges "
     "among them (with their ids and data), count the edges crossing the border once, and leave the source graph unchanged.",
     ["inputs"], "every graph of every kind and every subset of nodes or edges",
     "Mistakes show only for subsets with unknown or reordered ids, deleted edges, self loops, mutual edges or renumbering.",
     ["snap/snap-core/subgraph.h", "snap/snap-core/subgraph.cpp"],
     [("node and edge subgraphs, conversions", "snap/snap-core/subgraph.h"), ("renumbered subgraphs and egonets", "snap/snap-core/subgraph.cpp")],
     facets=[("snap_sub", "subgraph"), ("snap_sub", "convert"), ("snap_sub", "egonet")],
     rule="random graphs of 1-14 nodes in five id layouts (also shuffled), random subsets in random order with unknown ids; non-trivial = at least 3 nodes and 2 edges",
     technique="property-based testing against set-defined subgraphs (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap functions of subgraph.h"])
prop("P21", "Graph generators deliver the structure they promise",
     "Grids, stars, circles, complete graphs, trees and hierarchies equal their definition; random generators deliver exactly the requested nodes, edges, degrees or degree bounds, without self loops or duplicate edges, "
     "and the same graph again for the same random state; rewiring keeps nodes, edge count and every degree.",
     ["inputs", "histories"], "every parameter combination and every random state",
     "A generator that loses edges, exceeds degrees or never ends does so for few parameter and seed combinations.",
     ["snap/snap-core/ggen.h", "snap/snap-core/ggen.cpp", "snap/snap-core/ff.cpp"],
     [("deterministic generators", "snap/snap-core/ggen.h"), ("random generators and rewiring", "snap/snap-core/ggen.cpp"), ("forest fire", "snap/snap-core/ff.cpp")],
     facets=[("snap_sub", "detgen"), ("snap_sub", "rndgen"), ("snap_sub", "rewire")],
     rule="random parameters and seeds for 19 generators over graphs of up to 125 nodes; non-trivial = more than 2 nodes (rewire: at least 3 nodes and 2 edges)",
     technique="property-based testing against explicit constructions, degree invariants and repeatability (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap::Gen*"])
prop("P22", "Maximum flows are maximal and communities are sound partitions",
     "Both maximum-flow algorithms return the capacity of a minimum cut; modularity and edge counts of node sets equal their definition; every community detection result is a partition of the nodes, CNM's reported "
     "modularity is that of its partition and no merge of two of its communities raises it, Girvan-Newman's communities are connected and reach the reported modularity.",
     ["inputs"], "every network, capacity assignment, source/sink pair and graph",
     "Flow and greedy clustering errors need parallel edges, residual paths, gaps or ties that samples do not contain.",
     ["snap/snap-core/flow.cpp", "snap/snap-core/cmty.cpp", "snap/snap-core/cmty.h"],
     [("Edmonds-Karp and push-relabel", "snap/snap-core/flow.cpp"), ("community detection", "snap/snap-core/cmty.cpp"), ("modularity", "snap/snap-core/cmty.h")],
     facets=[("snap_sub", "flow"), ("snap_sub", "community")],
     rule="flow networks of 2-10 nodes with parallel edges, deleted edges, self loops and capacities 0-100000; graphs of 1-16 nodes; non-trivial = more than 2 edges and source != sink, or 3 nodes and 2 edges",
     technique="property-based differential testing against exhaustive minimum cuts and definition-level modularity (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TSnap::GetMaxFlowInt*", "TSnap::Community*"])
prop("P23", "Turtle documents yield exactly the triples they describe",
     "For every document of the supported Turtle grammar the parser returns exactly the triples it denotes (prefixes, base, nested blank nodes, collections, escapes, long strings, numbers, datatypes, language tags), "
     "wherever tokens fall in the read buffer; malformed documents are rejected with an exception, never with a crash, a hang or invented triples.",
     ["inputs"], "every Turtle document, valid or damaged",
     "Lexical ambiguities, escapes and buffer boundaries combine; a parser that loses or merges a triple does so for specific token sequences only.",
     ["rdf3x/src/cts/TurtleParser.cpp", "rdf3x/include/cts/parser/TurtleParser.hpp"],
     [("parser", "rdf3x/src/cts/TurtleParser.cpp")],
     facets=[("rdf_text", "turtle"), ("rdf_text", "turtlebad")],
     rule="documents generated from the grammar together with their triples, with random white space, comments and padding past the 1 KB read buffer, plus documents with one violation or random damage; non-trivial = at "
          "least 3 triples and a nested construct, escape, long string or directive",
     technique="grammar-based generation with the denoted graph as oracle (compared up to blank node names), plus mutation fuzzing (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TurtleParser::parse"])
prop("P24", "The SPARQL lexer splits every text into its tokens",
     "Any sequence of SPARQL tokens, written with any white space or comments allowed between them, is read back token for token with the same values; peeking, putting back and keyword tests are consistent; "
     "any other text ends in finitely many tokens.",
     ["inputs"], "every token sequence and every byte string",
     "Maximal munch between operators, IRIs, numbers and identifiers goes wrong only for particular neighbours.",
     ["rdf3x/src/cts/SPARQLLexer.cpp"],
     [("lexer", "rdf3x/src/cts/SPARQLLexer.cpp")],
     facets=[("rdf_text", "lexer"), ("rdf_text", "lexbad")],
     rule="1-24 random tokens with or without separators (only where the grammar allows none), plus random bytes and token soup; non-trivial = at least 5 tokens, two of them touching",
     technique="generated token sequences with round-trip oracle, plus byte-level fuzzing (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["SPARQLLexer"])

prop("P25", "Query operators join correctly",
     "Scans, joins (merge, hash, nested loop, product) and left outer joins produce exactly the bag of rows relational algebra defines, in the promised order, for every input, "
     "whether or not the storage layer follows skip hints and value domains, and again when the operator is restarted.",
     ["inputs", "histories"], "every database, operator tree and skipping behaviour of the storage layer",
     "The merge join is a state machine with a dozen look-ahead states and hints that let scans skip rows; only particular runs of equal keys reach each state.",
     ["rdf3x/src/rts/MergeJoin.cpp", "rdf3x/src/rts/HashJoin.cpp", "rdf3x/src/rts/CartProd.cpp", "rdf3x/src/rts/NestedLoopJoin.cpp", "rdf3x/src/rts/IndexScan.cpp",
      "rdf3x/src/rts/AggregatedIndexScan.cpp", "rdf3x/src/rts/FullyAggregatedIndexScan.cpp", "rdf3x/src/rts/DomainDescription.cpp"],
     [("merge join", "rdf3x/src/rts/MergeJoin.cpp"), ("hash join", "rdf3x/src/rts/HashJoin.cpp"), ("index scans", "rdf3x/src/rts/IndexScan.cpp")],
     facets=[("rdf_ops", "scan", 1.0), ("rdf_ops", "join", 2.0), ("rdf_ops", "outer", 1.0)],
     rule="operator trees of depth up to 3 over random relations (1-12 values per column, runs of equal keys, colliding hash keys) and an in-memory storage layer that skips at random where hints allow it; "
          "non-trivial = at least 2 joined rows (outer: matched and unmatched rows; scan: at least 4 triples)",
     technique="random operator trees against bag relational algebra (model-based PBT)",
     note="exploration; trusts " + TRUST,
     observe=["MergeJoin", "HashJoin", "CartProd", "NestedLoopJoin", "IndexScan", "AggregatedIndexScan", "FullyAggregatedIndexScan"])

prop("P26", "Query set, filter, sort and group operators follow their algebra",
     "Union, merge union, duplicate elimination, grouping, minus, filters, VALUES, BIND, ORDER BY and the nested-loop filter return exactly the rows and multiplicities their definition gives, "
     "in the order they promise, and again when restarted.",
     ["inputs", "histories"], "every input relation and operator parameter",
     "Multiplicities, ties, empty inputs and restarts are the cases that examples miss.",
     ["rdf3x/src/rts/Union.cpp", "rdf3x/src/rts/MergeUnion.cpp", "rdf3x/src/rts/HashGroupify.cpp", "rdf3x/src/rts/GroupBy.cpp", "rdf3x/src/rts/Filter.cpp", "rdf3x/src/rts/Minus.cpp", "rdf3x/src/rts/Sort.cpp",
      "rdf3x/src/rts/AggrFunctions.cpp", "rdf3x/src/rts/ValuesScan.cpp", "rdf3x/src/rts/Assignment.cpp", "rdf3x/src/rts/NestedLoopFilter.cpp", "rdf3x/src/rts/SingletonScan.cpp", "rdf3x/src/rts/DuplLimit.cpp", "rdf3x/src/rts/TableFunction.cpp"],
     [("group", "rdf3x/src/rts/GroupBy.cpp"), ("hash groupify", "rdf3x/src/rts/HashGroupify.cpp"), ("merge union", "rdf3x/src/rts/MergeUnion.cpp")],
     facets=[("rdf_ops", "setops", 2.0), ("rdf_ops", "loops", 1.0), ("rdf_ops", "sorting", 1.0)],
     rule="random relations with multiplicities and ties; non-trivial = more than one row reaches the operator's decision (per operator)",
     technique="random relations against bag relational algebra (model-based PBT)",
     note="exploration; trusts " + TRUST,
     observe=["Union", "MergeUnion", "HashGroupify", "GroupBy", "Filter", "Sort", "AggrFunctions"])

prop("P27", "The query runtime's pools, domains and scheduler keep their contracts",
     "Domain descriptions never exclude a value that was added or not restricted, memory pools never hand out overlapping or lost objects, the temporary dictionary maps terms and ids one to one, "
     "and the scheduler runs every asynchronous point exactly once, after the points it depends on, before the plan, under every schedule.",
     ["inputs", "histories", "schedules"], "every sequence of operations and every interleaving of the worker threads",
     "Domains are lossy bitmaps over ranges, pools recycle memory and the scheduler hands work to threads; faults show only for particular values or interleavings.",
     ["rdf3x/src/rts/DomainDescription.cpp", "rdf3x/src/infra/Pool.cpp", "rdf3x/include/infra/util/VarPool.hpp", "rdf3x/src/rts/TemporaryDictionary.cpp", "rdf3x/src/rts/Scheduler.cpp"],
     [("domains", "rdf3x/src/rts/DomainDescription.cpp"), ("pools", "rdf3x/src/infra/Pool.cpp"), ("scheduler", "rdf3x/src/rts/Scheduler.cpp")],
     facets=[("rdf_ops", "domain", 1.0), ("rdf_ops", "pools", 1.0), ("rdf_ops", "tempdict", 1.0), ("rdf_ops", "scheduler", 1.0)],
     rule="random operation histories; non-trivial = several ranges / recycled objects / repeated terms / at least 2 asynchronous points on several threads",
     technique="stateful PBT against set, allocation and map models; random scheduling of real threads (ASan)",
     note="exploration; thread interleavings are sampled, not enumerated; trusts " + TRUST,
     observe=["DomainDescription", "Pool", "VarPool", "TemporaryDictionary", "Scheduler"])

prop("P28", "The analytics containers behave as their abstract data types",
     "Vectors, hash tables and sets, hash-keyed strings, stacks, queues, linked lists, priority queues and string operations behave, after every history of operations, as the sequence, map, set, queue or string they represent: "
     "contents, order, positions and search results agree with the abstract value, and saving and loading a container gives back the same value.",
     ["histories", "inputs"], "every history of container operations and every content",
     "Every graph algorithm stands on these containers; key reuse after deletion, rehashing, growth and sorting of repeated or ordered values go wrong only for particular histories.",
     ["snap/glib-core/ds.h", "snap/glib-core/hash.h", "snap/glib-core/shash.h", "snap/glib-core/dt.cpp"],
     [("vector", "snap/glib-core/ds.h"), ("hash", "snap/glib-core/hash.h"), ("string", "snap/glib-core/dt.cpp")],
     facets=[("snap_cont", "vec", 1.0), ("snap_cont", "hash", 1.0), ("snap_cont", "queues", 1.0), ("snap_cont", "str", 1.0)],
     rule="random operation histories; non-trivial = long enough to contain repeated values, deletions followed by reuse, or growth beyond the initial capacity",
     technique="stateful model-based PBT against standard-library containers (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TVec", "THash", "THashSet", "TSStack", "TQQueue", "TLst", "TMaxPriorityQueue", "TVVec", "TStr", "TStrPool", "TStrHash"])

prop("P29", "Analytics graphs survive saving, loading and copying",
     "Saving a graph in the binary format, as an edge list, as a connection list or in Pajek format and reading it back gives a graph with the same nodes, edges, directions and multiplicities that the format can express; "
     "copies and assignments are equal to and independent of the original.",
     ["inputs", "histories"], "every graph, including isolated nodes, self loops, parallel edges and sparse ids",
     "Graphs are produced once and reloaded by later analyses; a lost node, swapped direction or merged edge in one format silently changes every later result.",
     ["snap/snap-core/gio.h", "snap/snap-core/gio.cpp", "snap/snap-core/graph.h", "snap/glib-core/ss.cpp"],
     [("formats", "snap/snap-core/gio.h"), ("binary", "snap/snap-core/graph.h")],
     facets=[("snap_cont", "io", 1.0)],
     rule="random graphs with deletions; non-trivial = at least 3 nodes and 2 edges",
     technique="round-trip PBT over every graph class and format (ASan)",
     note="exploration; trusts " + TRUST,
     observe=["TUNGraph", "TNGraph", "TNEGraph", "SaveEdgeList", "LoadEdgeList", "LoadConnList", "SavePajek"])
