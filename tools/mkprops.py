#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to rewrite that file."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["pads/%s.py" % f for f in files],
            "mechanism": [{"name": n, "where": "pads/%s" % w}
                          for n, w in mech],
            "observe_at": observe,
            "hook_needed": None}})


# ---------------------------------------------------------------- containers
prop("C01", "Union-find answers exactly the equivalence closure of the unions",
     "After any history of lookups and unions over arbitrary hashable items, two items have the same set name exactly when the unions performed so far connect them. A set's name is one of its own members and does not change until that set takes part in a union that enlarges it. Looking up an unseen item creates a singleton, and iterating lists every item seen exactly once.",
     ["histories", "inputs"], "every history of lookup, union (of any number of items, repeated or already united) and iteration, over ints, strings, tuples and mutually unorderable items",
     "The tests run one fixed sequence of two-item unions over small integers; they never use multi-item unions, unorderable items, or re-check names across later operations.",
     ["union_find"], [("weighted union with path compression", "union_find.py UnionFind")],
     ["UnionFind.__getitem__", "UnionFind.union", "UnionFind.__iter__"])

prop("C02", "Bucket queue pops a minimum-priority item under any interleaving",
     "Consuming iteration of the bucket queue always returns, and removes, an item whose current integer priority is minimum, however insertions, priority changes and deletions are interleaved with the iteration. Lookup, membership, length and the reported item/priority pairs always agree with the mapping built by the history. Non-integer priorities and absent keys are refused without changing the queue.",
     ["histories"], "every interleaving of set, change, delete, lookup and partial iteration steps, with priorities (including negative ones) moving below and above the last one popped",
     "The tests cover a handful of straight-line scripts; none lowers a priority below the scan position in the middle of an iteration or refills an emptied queue.",
     ["bucketqueue"], [("lowest-bucket pointer", "bucketqueue.py BucketQueue")],
     ["BucketQueue.__setitem__", "BucketQueue.__delitem__", "BucketQueue.__iter__", "BucketQueue.items"])

prop("C03", "Integer heaps behave as finite sets of integers with exact minimum",
     "Each integer heap of capacity 2^(2^k) or word size behaves as a set of integers: adding is idempotent, removing takes out exactly the given integer and nothing else, the reported minimum is the smallest integer present, and the heap is true exactly when it is nonempty. All heap variants agree with one another on every history. The base-two logarithm helper agrees with integer bit length.",
     ["histories", "configurations"], "every sequence of add, remove and min over all heap variants and universe sizes 1 to 64 bits",
     "The heap tests insert and then only ever remove the minimum; removals from the middle and repeated insertions are not exercised.",
     ["integer_heap"], [("van Emde Boas style recursion on high and low halves", "integer_heap.py FlatHeap"), ("bit-vector base case", "integer_heap.py BitVectorHeap")],
     ["IntegerHeap", "BitVectorHeap", "FlatHeap", "LinearHeap", "log2"])

prop("C04", "Sorted set iterates its members once each, in current sorted order",
     "After any history of additions, removals, sort-key updates and full or partial iterations, iterating the sorted set yields each current member exactly once in nondecreasing order. Length and membership agree with the same set. Removing an absent item is refused and changes nothing.",
     ["histories"], "every interleaving of add (also of present items), remove, re-add, update of a member whose sort order changed, and iteration",
     "The tests cover two or three scripted sequences and never add an item that is already present after an iteration.",
     ["sorted_set"], [("lazy merge of recent additions and removals into the last sorted list", "sorted_set.py SortedSet")],
     ["SortedSet.add", "SortedSet.remove", "SortedSet.update", "SortedSet.__iter__"])

prop("C05", "Linked sequence matches an ordinary list under every edit history",
     "After any history of insertions (at the end, before, after a given item) and removals, the linked sequence lists the same items in the same order as an ordinary list edited the same way; length, indexing, cyclic successor and cyclic predecessor agree with that list. Inserting an item already present, or referring to an absent one, is refused and leaves the sequence unchanged. The optional key function affects only item identity.",
     ["histories"], "every edit history, including removal of the first or last item, emptying and refilling, and unhashable items identified through a key function",
     "There are no tests for the linked sequence at all.",
     ["sequence"], [("doubly linked circular list in dictionaries", "sequence.py Sequence")],
     ["Sequence.append", "Sequence.insertAfter", "Sequence.insertBefore", "Sequence.remove", "Sequence.__iter__", "Sequence.__getitem__", "Sequence.successor", "Sequence.predecessor"])

prop("C06", "Order-maintenance structures always compare by current position",
     "After any history of insertions at the end, before and after given items, and removals, the order-maintenance sequences compare two present items exactly as their current positions do, and list their items in that order. This holds however long insertions are repeated at one place, and for items identified through a key function. Both variants agree.",
     ["histories", "configurations"], "every edit history of both variants, including long runs of insertions at one place that exhaust the gaps between tags",
     "There are no tests for order maintenance; overflow of the tag space needs dozens of insertions at one place.",
     ["ordered_sequence"], [("integer tags with rebalancing", "ordered_sequence.py SimpleOrderedSequence, LogarithmicOrderedSequence")],
     ["SimpleOrderedSequence.cmp", "LogarithmicOrderedSequence.cmp", "append", "insertAfter", "insertBefore", "remove"])

prop("C07", "Partition refinement always holds the coarsest refinement asked for",
     "After any history of refinements, additions and removals, the blocks are disjoint, cover exactly the current elements, and two elements share a block exactly when no refining set since they were placed together has separated them. Each refinement reports exactly the blocks it split, as pairs of the part inside and the part outside the refining set, and looking up an element returns the block that contains it. Freezing changes no block's contents.",
     ["histories"], "every history of refine (with sets containing foreign elements too), add, remove, lookup and freeze",
     "The tests run one refinement script and look at block counts only.",
     ["partition_refinement"], [("in-place splitting keyed by block identity", "partition_refinement.py PartitionRefinement")],
     ["PartitionRefinement.refine", "add", "remove", "__getitem__", "__iter__", "freeze"])

prop("C08", "Frequency estimates never exceed and stay within the stated accuracy",
     "For every stream, each key's estimated frequency never exceeds its true frequency and is below it by at most the requested accuracy. Iteration lists only keys that really occurred, and includes every key whose true frequency exceeds the accuracy. Unseen keys have estimate zero, and no more than 1/accuracy keys are kept.",
     ["histories", "inputs"], "every stream of keys and every accuracy, checked after every element of the stream",
     "There are no tests of the estimator; its bound depends on the whole order of arrivals and evictions.",
     ["frequencyestimator"], [("Misra-Gries counters with eviction", "frequencyestimator.py FrequencyEstimator")],
     ["FrequencyEstimator.__iadd__", "FrequencyEstimator.__getitem__", "FrequencyEstimator.__iter__"])

prop("C09", "SVG writer emits a well-nested document drawing what was requested",
     "Every sequence of drawing and grouping calls produces, once closed, a well-formed nested document with one element per call carrying the coordinates, sizes, text and style given in that call, inside exactly the groups open at the time. Coordinates are written to within a ten-thousandth, and keyword styles override the style dictionary of the same call without affecting later calls. Closing the document while a group is still open is refused.",
     ["histories", "inputs"], "every sequence of group, shape, text, custom element, ungroup and close calls with arbitrary coordinates and styles",
     "There are no tests of the writer.",
     ["svg"], [("element nesting and coordinate formatting", "svg.py SVG")],
     ["SVG.group", "SVG.ungroup", "SVG.circle", "SVG.rectangle", "SVG.segment", "SVG.polygon", "SVG.text", "SVG.close"])

prop("C10", "Totally monotone matrix searching returns true column minima",
     "For every totally monotone cost matrix and any ordered row and column labels, the batch search returns for each column its minimum value and the earliest row attaining it. The online variant, whose costs may depend on values already reported, returns for each position the minimum over all earlier positions and a position attaining it, whatever order and repetition its queries come in.",
     ["inputs", "histories"], "every totally monotone matrix (with ties and unequal dimensions), every query order of the online variant",
     "The tests use one matrix family of one size for each variant.",
     ["smawk"], [("reduce and interpolate recursion", "smawk.py ConcaveMinima"), ("online candidate tracking", "smawk.py OnlineConcaveMinima")],
     ["ConcaveMinima", "OnlineConcaveMinima.value", "OnlineConcaveMinima.index"])

# ------------------------------------------------------------------ automata
prop("C11", "Regular expressions accept exactly the strings they denote",
     "For every well-formed expression built from symbols, concatenation, union, star, parentheses and empty alternatives, the resulting recognizer and language object accept a string exactly when the expression denotes it, including the empty string and strings with symbols outside the expression. Text with an unmatched parenthesis or nothing after an escape is refused.",
     ["programs", "inputs"], "every expression up to a bounded size and every string up to a bounded length",
     "The tests try three expressions and six strings.",
     ["automata"], [("recursive descent construction of a state per symbol occurrence", "automata.py RegExp"), ("nondeterministic simulation", "automata.py FiniteAutomaton")],
     ["RegExp.__call__", "RegularLanguage.__contains__"])

prop("C12", "Language algebra and comparison follow set semantics",
     "Complement, intersection, union, symmetric difference and reversal of languages or automata accept exactly the strings the corresponding set operation says. Equality, inequality, subset, superset, proper variants and emptiness tests answer as the languages themselves compare. Operands are never changed by an operation, and combining operands over different alphabets or with anything that is not a language is refused.",
     ["programs", "inputs"], "every pair of small languages given by expressions, deterministic or nondeterministic tables over the same alphabet, and compositions of operations",
     "The tests cover complement membership of three languages and a few equality comparisons.",
     ["automata"], [("product construction and subset construction", "automata.py"), ("language comparison through minimal automata", "automata.py RegularLanguage")],
     ["RegularLanguage operators", "DFA.complement", "DFA.union", "DFA.intersection", "DFA.symmetricDifference", "FiniteAutomaton.reverse", "FiniteAutomaton.renumber"])

prop("C13", "Minimized automata are equivalent to the original and smallest possible",
     "Minimizing any automaton yields a deterministic automaton with the same language and with exactly as many states as that language has distinguishable prefixes over its alphabet. Comparing two minimized automata for equality answers whether their languages are equal.",
     ["programs"], "every deterministic automaton up to a bounded number of states and symbols, and nondeterministic ones",
     "No test looks at the number of states or minimizes a table automaton.",
     ["automata", "partition_refinement"], [("partition refinement of states", "automata.py MinimumDFA"), ("structural comparison", "automata.py DFA equality")],
     ["FiniteAutomaton.minimize", "DFA.__eq__", "DFA.states"])

prop("C14", "Expressions extracted from automata denote the automaton's language",
     "The regular expression extracted from any automaton over ordinary symbols, when read back, denotes exactly the language of that automaton; conversion between nondeterministic and deterministic forms preserves the language; the printed listing of an automaton shows its states, transitions and final states faithfully.",
     ["programs"], "every small deterministic or nondeterministic automaton, including ones with no strings, only the empty string, and several initial states",
     "The tests convert three minimized automata.",
     ["automata"], [("state elimination", "automata.py RegExp extraction"), ("subset construction", "automata.py asDFA")],
     ["FiniteAutomaton.RegExp", "NFA.asDFA", "DFA.asNFA", "FiniteAutomaton.pprint"])

# --------------------------------------------------------- traversals, graphs
prop("C15", "Depth-first search reports a correctly nested forest traversal",
     "For every graph and start, the search reports each tree edge once going down and once coming back in properly nested order, each other edge once at its source while that source is being explored, roots as self-pairs, and visits each vertex exactly once. Preorder, postorder and reachability derived from it agree with that traversal, and reachability agrees with path existence. Subclassed searchers receive the same events.",
     ["inputs"], "every directed or undirected graph with any start vertex, including self-loops, isolated vertices and unorderable vertices",
     "The tests check two small graphs and only reachability-style facts.",
     ["dfs"], [("iterative stack-based search", "dfs.py search")],
     ["search", "preorder", "postorder", "reachable", "Searcher"])

prop("C16", "Breadth-first levels and lexicographic breadth-first order are correct",
     "Breadth-first levels partition the vertices reachable from the start by exact shortest distance, each level mapping its vertices to all their neighbours in the next level. Lexicographic breadth-first search lists every vertex exactly once in an order satisfying the lexicographic neighbour rule.",
     ["inputs"], "every graph and every start vertex, including disconnected and empty graphs",
     "Breadth-first levels and the lexicographic rule have no direct tests.",
     ["bfs", "lex_bfs"], [("level-by-level expansion", "bfs.py"), ("partition refinement by visited neighbourhoods", "lex_bfs.py")],
     ["breadth_first_levels", "lex_bfs"])

prop("C17", "Chordality is decided exactly and with a valid elimination order",
     "A graph is reported chordal exactly when every cycle longer than three has a chord. For a chordal graph the returned elimination order lists each vertex once and the later neighbours of every vertex form a clique; for a non-chordal graph asking for the order is refused.",
     ["inputs"], "every undirected graph up to a bounded size, plus larger random chordal and nearly chordal graphs",
     "The tests cover two graphs.",
     ["chordal", "lex_bfs"], [("reverse lexicographic order with parent check", "chordal.py")],
     ["perfect_elimination_ordering", "is_chordal"])

prop("C18", "Biconnected components partition the edges exactly along cut vertices",
     "For every undirected graph the reported components are exactly its maximal biconnected subgraphs (single edges and isolated vertices included), each with all its edges, every edge in exactly one component. The biconnectivity test answers true exactly for connected graphs without cut vertices. Non-undirected input is refused.",
     ["inputs"], "every undirected graph up to a bounded size with any vertex order, larger random graphs with cut vertices, and non-symmetric inputs",
     "The tests cover two graphs.",
     ["biconnectivity"], [("depth-first low-point computation", "biconnectivity.py")],
     ["BiconnectedComponents", "is_biconnected"])

prop("C19", "st-orientation is acyclic with one source and one adjacent sink",
     "For every biconnected undirected graph with at least one edge, the orientation directs every edge exactly once, is acyclic, and has exactly one source and exactly one sink, which are adjacent. Graphs that are not biconnected are refused.",
     ["inputs"], "every biconnected and non-biconnected graph up to a bounded size under every vertex order, larger random graphs",
     "One graph is tested.",
     ["biconnectivity"], [("depth-first ear ordering", "biconnectivity.py st_orientation")],
     ["st_orientation"])

prop("C20", "Strong components and condensation match mutual reachability",
     "The strongly connected components are exactly the classes of mutually reachable vertices, each returned once with all edges inside it, and the condensation is an acyclic graph on those vertex sets with an edge exactly where some original edge joins two different components.",
     ["inputs"], "every directed graph up to a bounded size with self-loops, larger random digraphs",
     "Three graphs are tested.",
     ["strong_connectivity"], [("depth-first low-point stack", "strong_connectivity.py")],
     ["StronglyConnectedComponents", "Condensation"])

prop("C21", "Two-colouring succeeds exactly on bipartite graphs",
     "A graph is reported bipartite exactly when it has no odd cycle; the colouring and the bipartition then separate the ends of every edge and cover every vertex, and the orientation directs every edge from one side to the other. Otherwise colouring is refused, and the odd core consists of exactly the vertices in biconnected components that contain an odd cycle.",
     ["inputs"], "every undirected graph, disconnected ones and ones with isolated vertices included",
     "Two graphs are tested.",
     ["bipartite"], [("alternating colours along a depth-first search", "bipartite.py")],
     ["two_color", "bipartition", "is_bipartite", "bipartite_orientation", "odd_core"])

prop("C22", "Bipartite matching is maximum and certified by an independent set",
     "The matching returned uses only given edges, no vertex twice, and has maximum size; together with it comes an independent set of the two sides whose size proves it maximum. The analysis of edges in no perfect matching reports exactly those edges.",
     ["inputs"], "every bipartite graph up to a bounded size, with isolated vertices and unbalanced sides, larger random ones",
     "Two matchings are tested; the analysis of imperfect edges is untested.",
     ["bipartite_matching"], [("Hopcroft-Karp layered augmentation", "bipartite_matching.py matching"), ("strong components of the alternating graph", "bipartite_matching.py imperfections")],
     ["bipartite_matching.matching", "bipartite_matching.imperfections"])

prop("C23", "General matching is maximum for every graph and starting matching",
     "For every undirected graph the matching is symmetric, uses only graph edges, matches no vertex twice and has maximum possible size, also when started from any valid initial matching, every vertex of which stays matched. The greedy variant returns a valid maximal matching. Neither the graph nor the initial matching is modified.",
     ["inputs", "configurations"], "every graph up to a bounded size, every initial matching of small graphs, larger random graphs with nested odd cycles",
     "Two graphs without nested odd cycles are tested; initial matchings are never passed.",
     ["cardinality_matching", "union_find"], [("blossom contraction with structure forest", "cardinality_matching.py matching"), ("degree-one and degree-two reductions", "cardinality_matching.py greedy_matching")],
     ["cardinality_matching.matching", "cardinality_matching.greedy_matching"])

prop("C24", "Every Hamiltonian cycle of a degree-three graph is listed exactly once",
     "For every undirected graph of maximum degree three with at least three vertices, the generator yields each Hamiltonian cycle exactly once, each as a subgraph of the input that is a single spanning cycle, and yields nothing else. Other graphs are refused and the input is not modified.",
     ["inputs"], "every graph of maximum degree three up to a bounded size, named and random cubic graphs beyond that",
     "The tests count cycles on four families and never check what each yielded object is.",
     ["cubic_ham"], [("backtracking with forced edges, contraction and undo stack", "cubic_ham.py")],
     ["hamiltonian_cycles"])

prop("C25", "Degeneracy orders, cores and triangles match their definitions",
     "The removal order always removes a vertex of currently smallest degree and reports that degree; the degeneracy is the maximum over all subgraphs of the minimum degree; the k-core is the unique largest subgraph of minimum degree at least k, empty when there is none. Orientation by removal order is acyclic with bounded out-degree, and each triangle is listed exactly once.",
     ["inputs"], "every undirected graph, and every k below, at and above the degeneracy",
     "The tests cover the degeneracy of three graphs and the default core.",
     ["graphdegeneracy", "bucketqueue"], [("bucket queue of remaining degrees", "graphdegeneracy.py")],
     ["degeneracySequence", "degeneracy", "degeneracyOrientation", "core", "triangles"])

prop("C26", "Minimum spanning forests are spanning, acyclic and of minimum weight",
     "For every symmetric weighted graph the returned edges are graph edges, form no cycle, connect exactly what the graph connects, and have the least possible total weight, whatever ties, negative or fractional weights and vertex types occur. Non-symmetric or inconsistent weights are refused.",
     ["inputs"], "every weighted graph up to a bounded size with ties and negative weights, larger random ones, disconnected ones, unorderable vertices",
     "Three graphs with integer vertices and mostly distinct weights are tested.",
     ["minimum_spanning_tree", "union_find"], [("greedy edges with union-find", "minimum_spanning_tree.py")],
     ["MinimumSpanningTree"])

prop("C27", "Topological orders, acyclicity, closure and reachability are exact",
     "A directed graph is reported acyclic, and given a topological order in which every edge points forward, exactly when it has no directed cycle; the order checker accepts exactly the permutations of the vertices with that property. Transitive closure relates exactly the pairs joined by a nonempty path to a different vertex, and the reachability structure answers path existence in acyclic graphs.",
     ["inputs"], "every directed graph up to a bounded size, and every candidate order of small ones",
     "A few hand-made graphs are tested.",
     ["partial_order", "acyclic_reachability"], [("reverse postorder", "partial_order.py TopologicalOrder"), ("bit-set closure", "acyclic_reachability.py")],
     ["TopologicalOrder", "isTopologicalOrder", "isAcyclic", "TransitiveClosure", "Reachability.reachable"])

prop("C28", "Path covers, chain covers and antichains attain the Dilworth optimum",
     "For every acyclic graph the path decomposition partitions the vertices into the fewest possible paths, the chain decomposition into the fewest possible chains of the reachability order, and the maximum antichain is a largest set of pairwise unreachable vertices, so that its size equals the number of chains. The result does not depend on the order in which vertices are listed.",
     ["inputs"], "every acyclic graph up to a bounded size under every listing order, larger random orders",
     "Only hypercubes are tested, in one listing order.",
     ["partial_order", "bipartite_matching"], [("bipartite matching of consecutive elements", "partial_order.py"), ("tracing of matched links into paths", "partial_order.py TracePaths")],
     ["MinimumPathDecomposition", "MinimumChainDecomposition", "MaximumAntichain", "TracePaths"])

prop("C29", "Two-satisfiability answers and forced literals are exact",
     "An implication graph over literals is reported satisfiable exactly when some truth assignment satisfies all implications. The forced-literal analysis returns exactly the variables having the same value in every satisfying assignment, with that value, and nothing when there is no satisfying assignment. Symbolic negation is an involution consistent with equality and hashing, and completing an instance under contraposition adds exactly the contrapositives.",
     ["inputs"], "every implication graph over a few variables, larger random instances near the satisfiability threshold",
     "Four instances are tested.",
     ["two_satisfiability", "_not", "strong_connectivity", "acyclic_reachability"], [("strong components of the implication graph", "two_satisfiability.py")],
     ["Satisfiable", "Forced", "Symmetrize", "Not"])

prop("C30", "Media: token actions, routing and hypercube coordinates are consistent",
     "For every medium built explicitly, from bit vectors, or from a labelled graph, each token's effect and reverse are consistent, the effective tokens of a state are those that move it, the state transition graph has exactly the effective transitions, the routing table leads from every state to every other along a shortest path, and the hypercube embedding makes shortest-path distance equal Hamming distance. Explicit copies behave identically to the original. Families of bit vectors that are not media are refused by routing, and labelled graphs with ambiguous tokens or inconsistent reverses are refused on construction.",
     ["inputs"], "every well-graded family of small bit vectors, and corrupted labelled graphs",
     "Three media are tested, with spot checks.",
     ["medium"], [("depth-first routing with reverse tokens", "medium.py RoutingTable"), ("coordinate assignment", "medium.py HypercubeEmbedding")],
     ["ExplicitMedium", "BitvectorMedium", "LabeledGraphMedium", "StateTransitionGraph", "RoutingTable", "HypercubeEmbedding"])

prop("C31", "Partial cubes are recognised exactly and labelled isometrically",
     "An undirected graph is reported a partial cube exactly when it is isometrically embeddable in a hypercube, and then edge labels are equal exactly for edges in the same cut class, and the vertex labels differ in exactly as many bits as the graph distance. Every other graph is refused with the documented error only.",
     ["inputs"], "every connected and disconnected undirected graph up to a bounded size, larger named and perturbed partial cubes, unorderable vertices",
     "A dozen graphs are tested.",
     ["partial_cube", "medium", "union_find"], [("breadth-first bit-parallel labelling", "partial_cube.py"), ("verification through media", "medium.py")],
     ["PartialCubeEdgeLabeling", "PartialCubeLabeling", "MediumForPartialCube", "isPartialCube"])

prop("C32", "Halin, dual 3-tree and wheel recognition with their certificates is exact",
     "A graph is recognised as Halin exactly when it is a plane tree without degree-two vertices plus the cycle through its leaves, and the leaf set returned is one such leaf set. Wheels, dual 3-trees and the complete graph on four vertices are recognised exactly; a Hamiltonian cycle is returned exactly for reducible graphs and is one; reconstruction of a reducible graph reproduces it.",
     ["inputs"], "every graph up to a bounded size, random Halin graphs and near misses (edges rewired, crossed leaf order) beyond it",
     "A few named graphs are tested.",
     ["halin"], [("degree-three reductions with hooks", "halin.py")],
     ["is_halin", "halin_leaf_vertices", "is_wheel", "is_dual_3_tree", "is_D3_reducible", "hamiltonian_cycle_D3", "reconstruct_D3", "is_K4", "is_outer_K4"])

prop("C33", "xyz-graph recognition and embeddings agree with geometry",
     "The edge-partition generator yields each partition of a cubic biconnected graph's edges into three perfect matchings exactly once. A point set is reported as an xyz graph exactly when every axis-parallel line meets it in zero or two points, and every embedding found places the vertices at distinct such points with edges exactly between points on a common axis-parallel line, no embedding being missed.",
     ["inputs"], "every cubic graph up to a bounded size, all small point sets in a grid",
     "Counts are tested for three families.",
     ["xyz_graph", "biconnectivity"], [("colour choice along an st-orientation", "xyz_graph.py CubicMatchPartitions"), ("grouping by two-coloured cycles", "xyz_graph.py")],
     ["CubicMatchPartitions", "isxyz", "xyzEmbeddings"])

prop("C34", "Nonrepetitive reachability, cycles and shortest walks are exact",
     "In an edge-labelled graph, the pairs reported reachable from a vertex and first label are exactly the ends and last labels of walks on which no two consecutive edges carry the same label; an edge is reported cyclic exactly when it lies on a closed walk of that kind; and the walk returned between two ends is one of that kind of minimum length.",
     ["inputs"], "every small multi-labelled graph with up to several labels per vertex, larger random ones",
     "Two small graphs are tested.",
     ["repetitivity"], [("gadget graph splitting vertices by label", "repetitivity.py NonrepetitiveGraph")],
     ["NonrepetitiveGraph.cyclic", "reachable", "shortest"])

prop("C35", "Graph files in every supported format decode to exactly the graph encoded",
     "Text encoding an undirected graph in any supported format, given as a string, a list of lines or an open file, decodes to exactly that graph, with the right number of vertices and a symmetric adjacency. Malformed text is refused with an error and never decodes to a different graph.",
     ["inputs"], "every small graph in every format with every header and padding variant, systematic corruptions",
     "The module has no tests.",
     ["read_undirected_graph"], [("format detection and per-format decoding", "read_undirected_graph.py")],
     ["readUndirectedGraph"])

prop("C36", "Graph helpers and example graphs have exactly the defined vertices and edges",
     "The helper functions for symmetry, degrees, copying, induced subgraphs, unions and independence return exactly what their definitions say and never alias or change their inputs. Every example-graph constructor returns a simple undirected graph with the order, degree and girth or diameter of the named graph, for every admissible parameter.",
     ["inputs", "configurations"], "every small graph for the helpers, every named graph and a range of parameters for the families",
     "Example graphs are used as inputs elsewhere but their own structure is untested.",
     ["graphs", "graph_examples"], [("adjacency construction by formula", "graph_examples.py")],
     ["graphs helpers", "graph_examples constructors"])

# ----------------------------------------------------- sequences, enumerations
prop("C37", "Range minima and lowest common ancestors are exact for all queries",
     "For every sequence of comparable values and every nonempty range, each range-minimum structure returns the minimum value of that range. For every rooted tree and every set of nodes, the ancestor structures return the deepest node that is an ancestor of them all, online and offline, for trees of any shape and depth and nodes of any hashable type. The running prefix minima are those of the prefixes.",
     ["inputs", "histories"], "every small sequence and tree with every query, long and deep ones, several structures built one after the other",
     "Random short sequences and one tree with string nodes are tested.",
     ["lca"], [("reduction between range minima and ancestors with block decomposition", "lca.py")],
     ["RangeMin", "RestrictedRangeMin", "PrecomputedRangeMin", "LogarithmicRangeMin", "LCA", "OfflineLCA", "PrefixMinima"])

prop("C38", "Longest common and longest increasing subsequences are longest",
     "The returned common subsequence is a subsequence of both inputs and no longer one exists. The returned increasing subsequence is a strictly increasing subsequence of the input of maximum length with, among those, the documented choice of final values.",
     ["inputs"], "every pair of short sequences over small alphabets and longer random ones, with repeated and equal values",
     "Four examples are tested.",
     ["lcs", "longest_increasing_subsequence"], [("memoised table with traceback", "lcs.py"), ("patience piles", "longest_increasing_subsequence.py")],
     ["LCS", "longest_increasing_subsequence"])

prop("C39", "Lyndon word generation, factorisation and minimal rotations are exact",
     "The generators list exactly the Lyndon words asked for, each once, in the documented order, and their number agrees with the counting function; the de Bruijn sequence contains each word of the given length exactly once cyclically. The factorisation splits every sequence into nonincreasing Lyndon factors, and the smallest suffix, smallest rotation and Lyndon test agree with direct comparison.",
     ["inputs"], "every alphabet size and length within bounds, every word up to a bounded length",
     "Counts and a few words are tested.",
     ["lyndon"], [("Duval generation and factorisation", "lyndon.py")],
     ["LengthLimitedLyndonWords", "LyndonWordsWithLength", "LyndonWords", "DeBruijnSequence", "CountLyndonWords", "ChenFoxLyndon", "SmallestSuffix", "SmallestRotation", "isLyndonWord"])

prop("C40", "Integer partition generators list every partition once in documented order",
     "Each generator yields exactly the partitions of its kind of the given integer (all, binary, or with a fixed number of parts), each exactly once and in the documented order, with parts in nonincreasing order. Conjugation is an involution that transposes the diagram.",
     ["inputs"], "every integer within bounds, including zero and numbers too small for the requested number of parts",
     "Counts are tested for a few integers.",
     ["integer_partitions"], [("in-place successor generation", "integer_partitions.py")],
     ["mckay", "revlex_partitions", "lex_partitions", "binary_partitions", "fixed_length_partitions", "conjugate"])

prop("C41", "Permutation change sequences visit every object once by legal moves",
     "The generators of permutations, doubled permutations, Stirling permutations and involutions visit every object of their kind exactly once, successive objects differ by exactly the documented move, and the change sequences drive exactly those visits.",
     ["inputs"], "every size within bounds, including zero and one",
     "Counts are tested for a few sizes.",
     ["permutations"], [("recursive interleaving of change sequences", "permutations.py")],
     ["PlainChanges", "SteinhausJohnsonTrotter", "DoublePlainChanges", "DoubleSteinhausJohnsonTrotter", "StirlingChanges", "StirlingPermutations", "InvolutionChanges", "Involutions"])

prop("C42", "Number streams give exactly the primes, factorisations and derived values",
     "The unbounded streams list exactly the primes, every integer with its prime factorisation, the Moebius values and the practical numbers, in order with nothing missing, and every value already handed out stays correct however far any stream is advanced. Random-access Moebius values agree with the stream in any query order.",
     ["inputs", "histories"], "prefixes of the streams to a bound, every interleaving of several streams and queries",
     "The first few values of each stream are tested, consumed one at a time.",
     ["eratosthenes"], [("incremental sieve", "eratosthenes.py")],
     ["primes", "factored_integers", "moebius_sequence", "moebius_function", "is_practical_factorization", "practical_numbers"])

prop("C43", "Integer points are enumerated once each by nondecreasing distance",
     "The enumeration of integer points of the plane yields every point exactly once in nondecreasing Euclidean distance from the origin, missing none, however far it is advanced and however many enumerations are advanced side by side.",
     ["inputs", "histories"], "prefixes of the enumeration to a bound, every order in which equally near points may be taken, interleaved enumerations",
     "One prefix is tested.",
     ["integerpoints"], [("growing convex hull with the nearest point beyond each edge", "integerpoints.py")],
     ["IntegerPointsByDistance"])

prop("C44", "Paragraph wrapping keeps the words and breaks lines where least penalised",
     "Wrapping any text yields lines that contain exactly the words of the text in order, separated by single spaces or by two after the end of a sentence, and broken only at spaces or inside words after hyphens. The total penalty of the lines, as defined by the target width and the options for long lines, number of lines, short last line and hyphenation, is the least of all such arrangements.",
     ["inputs"], "every short text over a few word lengths with several targets and option sets, longer random texts with every option varied",
     "The module is not importable by the tests and has none.",
     ["wrap", "smawk"], [("least-penalty breakpoints by online minima search", "wrap.py")],
     ["wrap"])

prop("C45", "Sudoku deductions never lose a solution and enumeration finds them all",
     "Every deduction made on a puzzle keeps every solution that the puzzle has (for rules that assume uniqueness: the solution of a uniquely solvable puzzle), every placement agrees with that solution and rules its digit out wherever it would clash, and a contradiction is reported only when there is no solution. Exhaustive enumeration yields exactly the solutions, and generated, permuted and printed puzzles keep the solution count and contents they claim.",
     ["inputs", "histories"], "puzzles of all difficulties with zero, one or several solutions, after every single deduction step",
     "The module is not importable by the tests and has none.",
     ["sudoku", "two_satisfiability", "bipartite_matching", "repetitivity"], [("rule-by-rule candidate elimination", "sudoku.py"), ("backtracking enumeration", "sudoku.py all_solutions")],
     ["Sudoku", "step", "all_solutions", "unisolvent", "permute", "output formats"])

prop("C46", "Circle packings have exactly the prescribed tangencies",
     "For every triangulated disk whose internal circles hang together and every choice of outer radii, the computed circles have the given outer radii, and around each internal circle its neighbours touch it and each other in the given cyclic order, to numerical accuracy. Normalising scales the whole packing so that the chosen circle has the target radius, and inverting keeps all tangencies; inverting around a circle makes it surround the others with the least circle as large as possible.",
     ["inputs"], "small triangulated disks with varied outer radii",
     "The module has no tests; the property is about real numbers.",
     ["circle_pack"], [("iterative radius relaxation and placement", "circle_pack.py")],
     ["circle_pack", "InvertPacking", "NormalizePacking", "InvertAround"])

prop("C47", "Algorithms leave their arguments alone and calls do not influence each other",
     "No graph, order, string or number algorithm changes the graph, collection or mapping passed to it, and the answer to a call does not depend on which other calls, on the same or other arguments, were made before or are still being iterated. In particular two generators from the same function advance independently. Changing an answer that a plain call has handed out changes neither the arguments nor any later answer, except where the answer is documented to be the argument itself.",
     ["histories", "schedules"], "every pair of calls and interleaved partially consumed generators over the public functions, inputs compared before and after",
     "Tests make one call per fresh input and never compare the input afterwards.",
     ["graphs", "cubic_ham", "cardinality_matching", "bipartite_matching", "partial_order", "lyndon", "permutations", "eratosthenes", "halin", "partial_cube", "xyz_graph"], [("working on private copies", "cubic_ham.py, cardinality_matching.py, graphs.py copy_graph")],
     ["all public functions"])

prop("C48", "The Sudoku solver's log accounts for every change and is true when written",
     "Reading the verbose log of a puzzle from the beginning, every placement it tells of was possible at that point, every elimination it tells of was of digits still possible there, and the result after any step, trial branch or direct change is exactly the solver's contents and remaining possibilities. Iterations are counted, rules reported and trial branches undone exactly as they happened, and the grounds given for simple deductions hold at the moment they are given.",
     ["histories", "inputs"], "every sequence of placements and eliminations within bounds, and all steps and searches on puzzles with zero, one or several solutions",
     "The module is not importable by the tests and has none; the log is only meant for people.",
     ["sudoku"], [("messages written when contents or locations change", "sudoku.py Sudoku.place, Sudoku.unplace"), ("messages of the backtracking search", "sudoku.py all_solutions")],
     ["Sudoku.logstream", "Sudoku.place", "Sudoku.unplace", "step", "all_solutions"])

prop("C49", "The Sudoku program shows exactly the grids and the report its options ask for",
     "A run of the command-line program shows the puzzle, its solution or solutions, a rearranged or a generated puzzle exactly as its options ask for and in the format asked for, whichever way the input marks its empty cells. The report calls a puzzle impossible exactly when no solution was found or trial and error was needed, easy exactly when only the simplest rules were used, never ranks a puzzle easier for needing more rules, and tells the number of solutions whenever it is not one.",
     ["inputs", "configurations"], "every combination of the main options on puzzles with zero, one or several solutions, in all formats",
     "The module is not importable by the tests and has none.",
     ["sudoku"], [("option handling and report", "sudoku.py"), ("reading of puzzles", "sudoku.py read_puzzle")],
     ["python -m pads.sudoku"])

prop("C50", "A Sudoku solver that reports no progress has used up its rules",
     "When the solver reports no progress on a solvable puzzle, none of the rules it was allowed to use has anything left to conclude from the digits still possible: no single place or single digit, no alignment, pair or triad, no digit in a cell that cannot be part of a complete row, column, square or nine placements of that digit, nothing decided by two-way alternatives, and on uniquely solvable puzzles no ambiguous rectangle with one free corner. Progress is reported exactly when the grid or the possible digits changed.",
     ["inputs", "histories"], "states of solvable puzzles in which any digits not in a solution have been ruled out, and every selection of the rules",
     "The module is not importable by the tests and has none; a rule that misses conclusions never gives a wrong answer.",
     ["sudoku", "bipartite_matching", "two_satisfiability", "strong_connectivity"], [("rule-by-rule candidate elimination", "sudoku.py step"), ("edges in no perfect matching", "bipartite_matching.py imperfections"), ("forced variables", "two_satisfiability.py forced")],
     ["Sudoku", "unplace", "choices", "step"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
